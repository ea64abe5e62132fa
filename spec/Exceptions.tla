----------------------------- MODULE Exceptions -----------------------------
(* What is thrown when exceptions are nested upon one another.  An exception  *)
(* carries the chain of those it is nested upon, the latest first.  Kinds of  *)
(* exceptions differ in whether they can be nested upon others: what is not   *)
(* of a class, or of a final one, cannot; what brings a chain of its own      *)
(* keeps that.                                                                *)
EXTENDS Naturals, Sequences
CONSTANTS CanNest(_), HasOwn(_)
\* Throwing e with cur being handled (none: << >>), own being what e brought.
NestOn(e, own, cur) == IF HasOwn(e) THEN <<e>> \o own
                       ELSE IF CanNest(e) THEN <<e>> \o cur
                       ELSE <<e>>
RECURSIVE NestAll(_, _, _)
NestAll(es, own, cur) == IF es = << >> THEN cur ELSE NestAll(Tail(es), own, NestOn(es[1], own, cur))
\* throwNested(e1, ..., en): e1 upon nothing, each of the others upon the previous.
ThrowNested(es, own) == NestAll(Tail(es), own, IF HasOwn(es[1]) THEN <<es[1]>> \o own ELSE <<es[1]>>)
\* throwWithNested(e1, ..., en): e1 upon what is being handled; none: that itself.
ThrowWithNested(es, own, cur) == NestAll(es, own, cur)
=============================================================================
