------------------------------ MODULE PyTrace ------------------------------
(* Recorded sessions of one Python interpreter that calls the functions of *)
(* the crossprob module, one after another.  An event is a call:           *)
(*    f      ecdf2, ecdf1_new_b, ecdf1_new_B, ecdf1_mns2016_b, .._B        *)
(*    count  "right" if it has the right number of arguments               *)
(*    x, y   what the list arguments are: "numbers" is a sequence of       *)
(*           numbers, "loose" something that may be taken for one, "none"  *)
(*           None, "other" anything else                                   *)
(*    flag   use_fft: "true", "false", or "other"                          *)
(*    id, m, b, B, grid   the question, as in ApiTrace                     *)
(*    out    value, or the kind of exception                               *)
(*    kept   0 if the arguments are what they were before, 1 if one was    *)
(*           modified, 2 if something refers to one that did not before    *)
EXTENDS ApiTrace

Op(e) == CASE e.f = "ecdf2" /\ e.flag = "false" -> "ks"
           [] e.f = "ecdf2" -> "fft"
           [] e.f = "ecdf1_new_b" -> "new_b"
           [] e.f = "ecdf1_new_B" -> "new_B"
           [] e.f = "ecdf1_mns2016_b" -> "mns_b"
           [] e.f = "ecdf1_mns2016_B" -> "mns_B"
Lists(e) == IF e.f = "ecdf2" THEN {e.x, e.y} ELSE {e.x}
Flag(e)  == IF e.f = "ecdf2" THEN e.flag ELSE "true"

(* The native outcome, with a runtime error shown as the exception it is. *)
Native(e) == IF e.out.k = "RuntimeError" THEN [k |-> "error"] ELSE e.out
(* The first answer to a question is the reference for later ones, also of other kinds of sequences. *)
AsAsked(e) == /\ e.out.k \in {"value", "RuntimeError"}
              /\ Right(e, Op(e), Native(e), Exact(e, Op(e)))
              /\ Consistent(e, Op(e), Native(e))

RightCall(e) ==
  /\ e.kept = 0
  /\ CASE e.count # "right" -> e.out.k = "TypeError"
       [] e.count = "right" /\ "other" \in Lists(e) -> e.out.k \in {"TypeError"} \cup (IF "none" \in Lists(e) THEN {"ValueError"} ELSE {})
       [] e.count = "right" /\ "other" \notin Lists(e) /\ "none" \in Lists(e) -> e.out.k \in {"TypeError", "ValueError"}
       [] OTHER -> IF "loose" \in Lists(e) \/ Flag(e) = "other"
                   THEN e.out.k = "TypeError" \/ AsAsked(e)
                   ELSE AsAsked(e)

Call == /\ l < Len(Trace[s].ev)
        /\ IF RightCall(Event) THEN TRUE ELSE PrintT(<<"BAD", s, l + 1>>) /\ FALSE
        /\ l' = l + 1 /\ s' = s
        /\ known' = IF Event.out.k \in {"value", "RuntimeError"} /\ Event.count = "right"
                    THEN known @@ (<<Event.id, Op(Event)>> :> Native(Event)) ELSE known
PyNext == Call
PySpec == Init /\ [][PyNext]_vars
=============================================================================
