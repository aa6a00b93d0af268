------------------------------- MODULE Ciphers ------------------------------
(* The hash functions of FIPS 180-4 and the stream cipher XSalsa20.  They   *)
(* are evaluated by java/BigOverrides.java; MCCiphers.tla compares them     *)
(* with published values.                                                   *)
EXTENDS Sequences, Integers

Octets == Seq(0..255)
Sha256(s) == CHOOSE t \in Octets : Len(t) = 32
Sha512(s) == CHOOSE t \in Octets : Len(t) = 64
XSalsa20(key, nonce, s) == CHOOSE t \in Octets : Len(t) = Len(s)
=============================================================================
