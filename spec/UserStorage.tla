---------------------------- MODULE UserStorage ----------------------------
(***************************************************************************)
(* The admit/release protocol of blocks (Dense, Strided) over user memory. *)
(*                                                                         *)
(* mem  : the user's arrays, sequences of scalars (guard zones included)   *)
(* blk  : the block: extent, strides (in elements), scalars per element,   *)
(*        user format, ids and offsets of the bound arrays, admitted flag  *)
(* val  : the block's elements in row-major index order, flattened to      *)
(*        scalars; Undef where the protocol leaves the value open          *)
(* shad : user memory as it was when the block was last admitted           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES blk, mem, val, shad
usvars == <<blk, mem, val, shad>>

Undef == -2000000001
Guard == 4          \* guard scalars on both sides of every user array

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

NElem(b) == Prod(b.dims)
NScal(b) == NElem(b) * b.nc

\* offset (in elements) of the element with row-major position p (0-based)
RECURSIVE OffRec(_, _, _)
OffRec(dims, strides, p) ==
  IF dims = <<>> THEN 0
  ELSE LET n == Len(dims)
       IN  (p % dims[n]) * strides[n]
           + OffRec(SubSeq(dims, 1, n-1), SubSeq(strides, 1, n-1), p \div dims[n])
Off(b, p) == OffRec(b.dims, b.strides, p)

\* The user-array cell holding scalar s (1-based, row-major element * nc + component).
Cell(b, s) ==
  LET p == (s-1) \div b.nc  c == (s-1) % b.nc
  IN  IF b.fmt = "split" THEN <<b.ids[c+1], Guard + Off(b, p) + 1>>
      ELSE <<b.ids[1], Guard + b.nc * Off(b, p) + c + 1>>

HasUser(b) == b.fmt # "none"
\* extent of the bound memory, in elements (padding included)
Extent(b) == b.total
InBound(b, id, pos) ==
  /\ HasUser(b)
  /\ \E k \in 1..Len(b.ids) : b.ids[k] = id
  /\ pos > Guard
  /\ pos <= Guard + Extent(b) * (IF b.fmt = "split" THEN 1 ELSE b.nc)
Cells(b) == IF HasUser(b) THEN {Cell(b, s) : s \in 1..NScal(b)} ELSE {}

\* mem with a sequence of changes <<id, pos, v>> applied
RECURSIVE Apply(_, _)
Apply(m, ch) == IF ch = <<>> THEN m
                ELSE Apply([m EXCEPT ![Head(ch)[1]][Head(ch)[2]] = Head(ch)[3]], Tail(ch))

Unbound == [dims |-> <<1>>, strides |-> <<1>>, nc |-> 1, total |-> 1, fmt |-> "none",
            ids |-> <<>>, adm |-> TRUE]

(* ------------------------------ actions ------------------------------- *)

\* A block is created: bound to user memory (released) or owning its storage (admitted).
Create(b, m, init) ==
  /\ blk' = b
  /\ mem' = m
  /\ val' = init
  /\ shad' = m

\* Only cells inside the bound memory of an admitted block may change, and only
\* because the library shares or synchronises it.
LibraryTouches(ch) ==
  (\A k \in 1..Len(ch) : InBound(blk, ch[k][1], ch[k][2])) = TRUE
Quiet(ch) == ch = <<>>

Admit(upd, ch) ==
  /\ Quiet(ch)
  /\ UNCHANGED mem
  /\ IF blk.adm \/ ~HasUser(blk)
     THEN /\ UNCHANGED <<val, shad>>
          /\ blk' = [blk EXCEPT !.adm = TRUE]
     ELSE /\ blk' = [blk EXCEPT !.adm = TRUE]
          /\ shad' = mem
          /\ val' = [s \in 1..NScal(blk) |->
                       IF upd THEN mem[Cell(blk, s)[1]][Cell(blk, s)[2]] ELSE Undef]

\* What user memory m holds once the block is released.
Published(upd, m) ==
  \A s \in 1..NScal(blk) :
     LET c == Cell(blk, s) v == m[c[1]][c[2]]
     IN  IF upd THEN v = val[s] \/ val[s] = Undef
         ELSE v = val[s] \/ val[s] = Undef \/ v = shad[c[1]][c[2]]

\* adm is what the block reports afterwards: an owned block may stay admitted.
Release(upd, ch, adm) ==
  /\ LibraryTouches(ch)
  /\ mem' = Apply(mem, ch)
  /\ IF ~blk.adm \/ ~HasUser(blk)
     THEN /\ Quiet(ch)
          /\ (~HasUser(blk) \/ ~adm) = TRUE
          /\ blk' = [blk EXCEPT !.adm = adm]
          /\ UNCHANGED <<val, shad>>
     ELSE /\ ~adm
          /\ blk' = [blk EXCEPT !.adm = FALSE]
          /\ Published(upd, mem') = TRUE
          /\ shad' = mem'
          /\ val' = [s \in 1..NScal(blk) |-> Undef]

\* Element write through the block (or a view of it); scalars s..s+nc-1 of element p
Put(p, v, ch) ==
  /\ blk.adm
  /\ LibraryTouches(ch)
  /\ mem' = Apply(mem, ch)
  /\ val' = [s \in 1..NScal(blk) |->
               IF (s-1) \div blk.nc = p THEN v[((s-1) % blk.nc) + 1] ELSE val[s]]
  /\ UNCHANGED <<blk, shad>>

\* All elements assigned at once (scalar fill, view assignment, direct data access)
AssignAll(v, ch) ==
  /\ blk.adm
  /\ LibraryTouches(ch)
  /\ mem' = Apply(mem, ch)
  /\ val' = v
  /\ UNCHANGED <<blk, shad>>

\* All elements are read. Values left open by the protocol become known.
Read(v, ch) ==
  /\ blk.adm
  /\ Quiet(ch)
  /\ Len(v) = NScal(blk)
  /\ (\A s \in 1..NScal(blk) : val[s] = Undef \/ val[s] = v[s]) = TRUE
  /\ val' = v
  /\ UNCHANGED <<blk, mem, shad>>

\* The user writes its own memory (not memory of an admitted block).
UserWrite(id, pos, v, ch) ==
  /\ ~(blk.adm /\ InBound(blk, id, pos))
  /\ mem' = [mem EXCEPT ![id][pos] = v]
  /\ Apply(mem, ch) = mem'
  /\ UNCHANGED <<blk, val, shad>>

\* The block is bound to other memory, possibly with another extent.
Rebind(b, ch) ==
  /\ ~blk.adm /\ HasUser(blk) /\ HasUser(b) /\ ~b.adm
  /\ Quiet(ch)
  /\ blk' = b
  /\ val' = [s \in 1..NScal(b) |-> Undef]
  /\ UNCHANGED <<mem, shad>>

\* Pointers reported: the bound arrays, or null (0) for storage the block owns.
PointersOk(ids) ==
  (IF HasUser(blk) THEN ids = blk.ids ELSE \A k \in 1..Len(ids) : ids[k] = 0) = TRUE
Find(ids, ch) == /\ Quiet(ch) /\ PointersOk(ids) /\ UNCHANGED usvars

(* ---------------------------- invariants ------------------------------ *)
\* distinct elements live in distinct cells inside the bound memory
LayoutInjective ==
  HasUser(blk) => /\ Cardinality(Cells(blk)) = NScal(blk)
                  /\ \A c \in Cells(blk) : InBound(blk, c[1], c[2])
ValShape == Len(val) = NScal(blk)
\* while the block is released the protocol promises nothing about its elements
ReleasedUnknown == (HasUser(blk) /\ ~blk.adm) => \A s \in 1..Len(val) : val[s] = Undef
=============================================================================
