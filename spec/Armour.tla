------------------------------- MODULE Armour -------------------------------
(***************************************************************************)
(* What a file of the example programs contains: text armour around        *)
(* base64 around DER.  Reading gives a verdict: "ok" with the value,       *)
(* "bad" (a program has to refuse it), "lax" (it may refuse it, or read    *)
(* this value), "any" (nothing but an orderly end is demanded) or "found"  *)
(* (a program should refuse it, and a listed finding says it does not).    *)
(***************************************************************************)
EXTENDS BigInt, SequencesExt, TLC

\* ---- verdicts -----------------------------------------------------------------
\* [k |-> "ok" | "lax" | "bad" | "any", v |-> value]
OK(v) == [k |-> "ok", v |-> v]
LAX(v) == [k |-> "lax", v |-> v]
BAD == [k |-> "bad", v |-> << >>]
ANY == [k |-> "any", v |-> << >>]
\* input of a kind with which the programs fail (known-findings.txt): it should be refused
FOUND(id) == [k |-> "found", v |-> id]
\* the verdict of a further step which depends on the value of the first
Then(x, F(_)) == LET a == TLCEval(x) IN
                 CASE a.k = "ok" -> F(a.v)
                   [] a.k = "lax" -> LET b == F(a.v) IN IF b.k = "ok" THEN LAX(b.v) ELSE b
                   [] OTHER -> a

\* ---- base64 and armour ----------------------------------------------------------
Code64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
\* the octets the digits of s stand for; incomplete octets are dropped
B64Octets(s) ==
  LET d == SelectSeq(s, LAMBDA c : Code64(c) >= 0)
      n == (Len(d) * 6) \div 8
      v(i) == Code64(d[i])
  IN [k \in 1..n |-> LET q == 4 * ((k - 1) \div 3) IN
        CASE k % 3 = 1 -> 4 * v(q + 1) + v(q + 2) \div 16
          [] k % 3 = 2 -> 16 * (v(q + 2) % 16) + v(q + 3) \div 4
          [] k % 3 = 0 -> 64 * (v(q + 3) % 4) + v(q + 4)]
\* digits in lines, complete groups, padding at the end only
Proper64(s) ==
  LET t == SelectSeq(s, LAMBDA c : c # 10)
      n == Len(t)
      pad == IF n > 1 /\ t[n] = 61 THEN IF t[n - 1] = 61 THEN 2 ELSE 1 ELSE 0
  IN /\ n > 0 /\ n % 4 = 0
     /\ \A i \in 1..(n - pad) : Code64(t[i]) >= 0
     /\ pad = 1 => Code64(t[n - 1]) % 4 = 0
     /\ pad = 2 => Code64(t[n - 2]) % 16 = 0

Dashes == <<45, 45, 45, 45, 45>>
BeginTag(w) == Dashes \o StrCodes("BEGIN ") \o StrCodes(w) \o Dashes
EndTag(w) == Dashes \o StrCodes("END ") \o StrCodes(w) \o Dashes
HasAt(s, t, i) == i >= 1 /\ i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
\* first position >= i where t occurs in s, 0 if it does not
Find(s, t, i) == IF t = << >> \/ Len(s) < Len(t) THEN 0
                 ELSE LET at == {j \in i..(Len(s) - Len(t) + 1) : s[j] = t[1] /\ HasAt(s, t, j)}
                      IN IF at = {} THEN 0 ELSE CHOOSE j \in at : \A k \in at : j <= k
\* the block marked w at position i of s: <<octets of the block, position behind it>>
\* (exactly as the programs write it)
Block(s, w, i) ==
  LET b == BeginTag(w) \o <<10>>
      e == EndTag(w) \o <<10>>
      j == Find(s, e, i + Len(b))
      body == SubSeq(s, i + Len(b), j - 1)
  IN IF HasAt(s, b, i) /\ j > i + Len(b) /\ s[j - 1] = 10 /\ Proper64(body)
     THEN [ok |-> TRUE, v |-> B64Octets(body), next |-> j + Len(e)]
     ELSE [ok |-> FALSE, v |-> << >>, next |-> 0]
\* any text which contains a block marked w
LaxBlock(s, w) ==
  LET b == BeginTag(w)  e == EndTag(w)
      i == Find(s, b, 1)
      j == IF i = 0 THEN 0 ELSE Find(s, e, i + Len(b))
      body == SubSeq(s, i + Len(b), j - 1)
      plain(t) == \A k \in 1..Len(t) : t[k] \notin {45, 0}
  IN IF 0 \notin {s[k] : k \in 1..Len(s)} /\ (Find(s, SubSeq(b, 6, Len(b) - 5), 1) = 0 \/ Find(s, SubSeq(e, 6, Len(e) - 5), 1) = 0) THEN BAD
     ELSE IF i > 0 /\ j > 0 /\ plain(body) /\ plain(SubSeq(s, 1, i - 1)) /\ plain(SubSeq(s, j + Len(e), Len(s)))
     THEN LET v == B64Octets(body) IN IF v = << >> THEN BAD ELSE LAX(v)
     ELSE ANY
Armoured(s, w) ==
  LET b == Block(s, w, 1) IN
  IF b.ok /\ b.next = Len(s) + 1 THEN OK(b.v) ELSE LaxBlock(s, w)

\* ---- DER --------------------------------------------------------------------------
\* the element at position i of s: tag, content, position behind it
DerAt(s, i) ==
  LET n == Len(s)
      bad == [k |-> "bad", tag |-> 0, v |-> << >>, next |-> 0]
      any == [bad EXCEPT !.k = "any"]
  IN IF i + 1 > n THEN bad
     ELSE LET f == s[i + 1]
              nb == IF f < 128 THEN 0 ELSE f - 128
              lenv == BFromBytes(SubSeq(s, i + 2, i + 1 + nb))
              size == IF f < 128 THEN f ELSE IF BBitLen(lenv) > 24 THEN n + 1 ELSE BToInt(lenv)
              at == i + 2 + nb
          IN IF f = 128 THEN any
             ELSE IF nb > 8 THEN any
             ELSE IF i + 1 + nb > n \/ at + size - 1 > n THEN bad
             ELSE [k |-> IF nb > 0 /\ (s[i + 2] = 0 \/ size < 128) THEN "lax" ELSE "ok",
                   tag |-> s[i], v |-> SubSeq(s, at, at + size - 1), next |-> at + size]
SEQ == 48  OCT == 4  INT == 2  ENUM == 10
\* s is exactly the elements with these tags: their contents
RECURSIVE DerSeq(_, _, _, _)
DerSeq(s, i, tags, acc) ==
  IF tags = << >> THEN (IF i = Len(s) + 1 THEN OK(acc) ELSE IF i <= Len(s) THEN BAD ELSE BAD)
  ELSE LET x == DerAt(s, i) IN
       IF x.k = "any" THEN ANY
       ELSE IF x.k = "bad" THEN BAD
       ELSE IF x.tag # tags[1] THEN (IF x.tag \in {36, 34} THEN ANY ELSE BAD)
       ELSE LET r == DerSeq(s, x.next, Tail(tags), Append(acc, x.v))
            IN IF x.k = "lax" /\ r.k = "ok" THEN LAX(r.v) ELSE r
\* s is one element with this tag, perhaps followed by something
Outer(s, tags) ==
  LET x == DerAt(s, 1) IN
  IF x.k \in {"any", "bad"} THEN [k |-> x.k, v |-> << >>]
  ELSE IF x.tag # SEQ THEN BAD
  ELSE LET r == DerSeq(x.v, 1, tags, << >>)
       IN IF r.k = "ok" /\ (x.k = "lax" \/ x.next # Len(s) + 1) THEN LAX(r.v) ELSE r

Unsigned(o) == IF o = << >> THEN FOUND("der") ELSE OK(BFromBytes(o))
SmallInt(o) == IF o = << >> \/ Len(o) > 4 THEN FOUND("der")
               ELSE IF o[1] >= 128 THEN FOUND("params")
               ELSE LET v == BToInt(BFromBytes(o))
                    IN IF Len(o) > 1 /\ o[1] = 0 /\ o[2] < 128 THEN LAX(v) ELSE OK(v)
IntOf(o) == SmallInt(o)

\* the worst of several verdicts, with value v if that is not too bad
Worst(vs, v) == IF \E i \in DOMAIN vs : vs[i].k = "found" THEN vs[CHOOSE i \in DOMAIN vs : vs[i].k = "found"]
                ELSE IF \E i \in DOMAIN vs : vs[i].k = "bad" THEN BAD
                ELSE IF \E i \in DOMAIN vs : vs[i].k = "any" THEN ANY
                ELSE IF \E i \in DOMAIN vs : vs[i].k = "lax" THEN LAX(v) ELSE OK(v)
=============================================================================
