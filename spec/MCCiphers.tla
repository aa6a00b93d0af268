------------------------------ MODULE MCCiphers -------------------------------
(***************************************************************************)
(* Published values of SHA-256, SHA-512 (FIPS 180-4) and XSalsa20 (NaCl),   *)
(* and the formats of Armour.tla: reading what is written, for octet        *)
(* strings of every length up to a bound; the overridden operators against  *)
(* their definitions (PureArmour, a copy without overrides).                *)
(***************************************************************************)
EXTENDS Armour, Ciphers, Integers, FiniteSets
Q == INSTANCE PureArmour

VARIABLE n
Init == n = 0
Next == n < 160 /\ n' = n + 1

abc == StrCodes("abc")
Published ==
  /\ Sha256(abc) = HexBytes("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")
  /\ Sha256(<< >>) = HexBytes("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")
  /\ Sha512(abc) = HexBytes("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")
  /\ XSalsa20(HexBytes("1b27556473e985d462cd51197a9a46c76009549eac6474f206c4ee0844f68389"),
              HexBytes("69696ee955b62b73cd62bda875fc73d68219e0036b7a0b37"), [k \in 1..32 |-> 0])
       = HexBytes("eea6a7251c1e72916d11c2cb214d3c252539121d8e234e652d651fa4c8cff880")
  /\ B64Octets(StrCodes("Zm9vYmFy")) = StrCodes("foobar") /\ B64Octets(StrCodes("Zm9vYg==")) = StrCodes("foob")

\* ---- writing ---------------------------------------------------------------------
Alphabet == StrCodes("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
Digits(o) == LET at(i) == IF i <= Len(o) THEN o[i] ELSE 0
                 g(k) == at(3 * k - 2) * 65536 + at(3 * k - 1) * 256 + at(3 * k)
                 pad(i) == i > (Len(o) * 8 + 5) \div 6
             IN [i \in 1..(4 * ((Len(o) + 2) \div 3)) |->
                   IF pad(i) THEN 61
                   ELSE LET k == (i + 3) \div 4  j == (i - 1) % 4 IN Alphabet[1 + ((g(k) \div (<<262144, 4096, 64, 1>>[j + 1])) % 64)]]
Lined(d) == [i \in 1..(Len(d) + (Len(d) - 1) \div 72) |-> IF i % 73 = 0 THEN 10 ELSE d[i - (i - 1) \div 73]]
Wrap(w, o) == BeginTag(w) \o <<10>> \o Lined(Digits(o)) \o <<10>> \o EndTag(w) \o <<10>>
Oct(k, m) == [i \in 1..k |-> (i * m + k * 7) % 256]
DerLen(k) == IF k < 128 THEN <<k>> ELSE <<129, k>>
Tlv(t, v) == <<t>> \o DerLen(Len(v)) \o v

Words == {"ECDH PRIVATE KEY", "ECDSA SIGNATURE"}
Texts == n > 0 => \A m \in {0, 1, 37, 255} : \A w \in Words :
  LET o == Oct(n, m)
      s == Wrap(w, o)
      d == Digits(o)
  IN /\ Armoured(s, w) = OK(o)
     /\ B64Octets(d) = o /\ Q!B64Octets(d) = o /\ Proper64(d)
     /\ \A v \in Words \ {w} : Armoured(s, v).k = "bad"
     /\ Armoured(Append(s, 10), w) = LAX(o)
     /\ Armoured(SubSeq(s, 2, Len(s)), w).k \in {"any", "bad"}
     /\ Armoured(SubSeq(s, 1, Len(s) - 7), w).k = "bad"
     /\ Find(s, EndTag(w), 1) = Q!Find(s, EndTag(w), 1) /\ Find(s, <<61>>, 5) = Q!Find(s, <<61>>, 5)
Ders == n > 0 =>
  LET o == Oct(n, 5)  s == Tlv(SEQ, Tlv(OCT, o) \o Tlv(INT, <<n % 128>>))
  IN /\ Outer(s, <<OCT, INT>>) = OK(<<o, <<n % 128>>>>)
     /\ n <= 122 => Outer(s \o <<0>>, <<OCT, INT>>).k = "lax"
     /\ Outer(s, <<OCT, ENUM>>) = BAD /\ Outer(s, <<OCT>>) = BAD /\ Outer(SubSeq(s, 1, Len(s) - 1), <<OCT, INT>>) = BAD
     /\ SmallInt(<<n % 128>>) = OK(n % 128) /\ SmallInt(<<0, 128 + (n % 128)>>) = OK(128 + (n % 128)) /\ SmallInt(<<0, n % 128>>).k = "lax"
Laws == Published /\ Texts /\ Ders
=============================================================================
