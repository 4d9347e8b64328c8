------------------------------ MODULE Carrier -------------------------------
(* How a record is carried in memory, as against what it says.  A record is a     *)
(* table of whole numbers; a carrier is a row of memory cells read through an      *)
(* origin and two strides, under a number type, a byte order, a write permission   *)
(* and possibly unpacked into nested sequences.  The user re-carries the record     *)
(* again and again; what is read through the carrier never changes, and a type is   *)
(* taken only when it holds every value.  An answer is a function of what is read.  *)
EXTENDS Common
CONSTANTS Mode, Depth
VARIABLES vals, buf, at, sr, sc, typ, swap, froz, box, word
vars == <<vals, buf, at, sr, sc, typ, swap, froz, box, word>>
Filler == 77
Types == {"b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f8"}
\* limits beyond the reach of the model's integers are written as its largest one
Lo(t) == CASE t = "i1" -> -128 [] t = "i2" -> -32768 [] t \in {"i4", "i8", "f8"} -> -2147483647 [] OTHER -> 0
Hi(t) == CASE t = "b1" -> 1 [] t = "i1" -> 127 [] t = "u1" -> 255 [] t = "i2" -> 32767 [] t = "u2" -> 65535 [] OTHER -> 2147483647
Wide(t) == t \in {"i2", "u2", "i4", "u4", "i8", "u8", "f8"}
NR == Len(vals)
NC == Len(vals[1])
Tables == {<< <<1, 0, 1>>, <<0, 0, 1>> >>, << <<3, -4, 100>> >>, << <<200, 0>>, <<7, 255>>, <<1, 2>> >>, << <<-300>>, <<32767>> >>, << <<65535, 70000>>, <<0, 5>> >>}
Inits == IF Mode = "file" THEN {Scens[k].vals : k \in 1..Len(Scens)} ELSE Tables
Read(i, j) == buf[at + (i - 1) * sr + (j - 1) * sc]
Fits(t) == \A i \in 1..NR, j \in 1..NC : Read(i, j) >= Lo(t) /\ Read(i, j) <= Hi(t)
\* ---------------------------------------------------------------- laying out
\* each layout: the origin, the strides and the number of cells; cells not addressed hold filler
Layout(o) == CASE o = "compact" -> [at |-> 1, sr |-> NC, sc |-> 1, n |-> NR * NC]
               [] o = "columns" -> [at |-> 1, sr |-> 1, sc |-> NR, n |-> NR * NC]
               [] o = "gaps" -> [at |-> 1, sr |-> 2 * NC, sc |-> 2, n |-> 2 * NR * NC]
               [] o = "backwards" -> [at |-> NC, sr |-> NC, sc |-> -1, n |-> NR * NC]
               [] o = "upside" -> [at |-> (NR - 1) * NC + 1, sr |-> -NC, sc |-> 1, n |-> NR * NC]
               [] o = "window" -> [at |-> 3, sr |-> NC + 5, sc |-> 1, n |-> NR * (NC + 5)]
               [] o = "offcut" -> [at |-> 2, sr |-> NC, sc |-> 1, n |-> NR * NC + 1]
Layouts == {"compact", "columns", "gaps", "backwards", "upside", "window", "offcut"}
Cell(L, k) == LET S == {p \in (1..NR) \X (1..NC) : L.at + (p[1] - 1) * L.sr + (p[2] - 1) * L.sc = k}
              IN IF S = {} THEN (IF typ = "b1" THEN 1 ELSE Filler) ELSE LET p == CHOOSE q \in S : TRUE IN Read(p[1], p[2])
Lay(o) == /\ box = "array"
          /\ LET L == Layout(o) IN buf' = [k \in 1..L.n |-> Cell(L, k)] /\ at' = L.at /\ sr' = L.sr /\ sc' = L.sc
          /\ froz' = FALSE /\ UNCHANGED <<vals, typ, swap, box>> /\ word' = Append(word, [op |-> "lay", v |-> o])
Retype(t) == /\ box = "array" /\ t # typ /\ Fits(t)
             /\ LET L == Layout("compact") IN buf' = [k \in 1..L.n |-> Cell(L, k)] /\ at' = L.at /\ sr' = L.sr /\ sc' = L.sc
             /\ typ' = t /\ swap' = FALSE /\ froz' = FALSE /\ UNCHANGED <<vals, box>> /\ word' = Append(word, [op |-> "type", v |-> t])
Swap == /\ box = "array" /\ Wide(typ) /\ ~froz /\ ~swap /\ swap' = TRUE
        /\ LET L == Layout("compact") IN buf' = [k \in 1..L.n |-> Cell(L, k)] /\ at' = L.at /\ sr' = L.sr /\ sc' = L.sc
        /\ UNCHANGED <<vals, typ, froz, box>> /\ word' = Append(word, [op |-> "swap", v |-> ""])
Freeze == box = "array" /\ ~froz /\ froz' = TRUE /\ UNCHANGED <<vals, buf, at, sr, sc, typ, swap, box>> /\ word' = Append(word, [op |-> "freeze", v |-> ""])
Unpack(b) == box = "array" /\ box' = b /\ UNCHANGED <<vals, buf, at, sr, sc, typ, swap, froz>> /\ word' = Append(word, [op |-> "unpack", v |-> b])
Init == /\ vals \in Inits /\ buf = [k \in 1..(Len(vals) * Len(vals[1])) |-> vals[((k - 1) \div Len(vals[1])) + 1][((k - 1) % Len(vals[1])) + 1]]
        /\ at = 1 /\ sr = Len(vals[1]) /\ sc = 1 /\ typ = "f8" /\ swap = FALSE /\ froz = FALSE /\ box = "array" /\ word = <<>>
Next == /\ Len(word) < Depth
        /\ \/ \E o \in Layouts : Lay(o)
           \/ \E t \in Types : Retype(t)
           \/ Swap \/ Freeze \/ (\E b \in {"list", "tuple"} : Unpack(b))
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- properties
InBounds == \A i \in 1..NR, j \in 1..NC : LET k == at + (i - 1) * sr + (j - 1) * sc IN k \in 1..Len(buf)
ReadsTheSame == \A i \in 1..NR, j \in 1..NC : Read(i, j) = vals[i][j]
NoTwoInOneCell == \A p, q \in (1..NR) \X (1..NC) : p # q => at + (p[1] - 1) * sr + (p[2] - 1) * sc # at + (q[1] - 1) * sr + (q[2] - 1) * sc
TypeHolds == Fits(typ)
EmitAll == word # <<>> => Emit([vals |-> vals, word |-> word, typ |-> typ, sr |-> sr, sc |-> sc, swap |-> swap, froz |-> froz, box |-> box])
=============================================================================
