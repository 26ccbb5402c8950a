------------------------------- MODULE JUtf8 -------------------------------
(* Judge for P05: the units delivered by the real reader for a byte sequence. *)
EXTENDS Utf8, Judge
Utf8Verdict(c) ==
    LET want == Decode(c.bytes) IN
    IF ~InDomain(c.bytes, 1) THEN "ok"
    ELSE IF c.obs.units # want THEN "decoded to other characters"
    ELSE IF c.obs.after # 0 \/ c.obs.regained THEN "the reader recovered after the end or a malformed character"
    ELSE IF ~c.obs.initially THEN "the reader was not good before the first read"
    ELSE "ok"
=============================================================================
