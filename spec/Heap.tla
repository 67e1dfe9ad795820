-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Immutable values over shared buffers.  Objects (patches, coordinates,    *)
(* managers, spools, caller arrays) refer to buffers; operations derive new *)
(* objects which may share buffers with existing ones (views) or own fresh  *)
(* copies, and may scribble in buffers they allocated themselves before     *)
(* publishing them.  An operation may also fail half way.  Property C02:     *)
(* the content seen through every published object never changes.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxBuf, MaxObj, Vals
VARIABLES buf,    \* buffer -> value
          obj,    \* Seq of [b : buffer]       published objects
          born,   \* Seq of the value each object was published with
          tmp     \* buffers owned by the running operation (unpublished)
vars == <<buf, obj, born, tmp>>

Init == /\ buf = <<CHOOSE v \in Vals : TRUE>> /\ obj = <<1>> /\ born = <<buf[1]>> /\ tmp = {}

Alloc(v) == /\ Len(buf) < MaxBuf
            /\ buf' = Append(buf, v) /\ tmp' = tmp \cup {Len(buf) + 1}
            /\ UNCHANGED <<obj, born>>
Scratch(b, v) == /\ b \in tmp /\ buf' = [buf EXCEPT ![b] = v] /\ UNCHANGED <<obj, born, tmp>>
Publish(b) == /\ Len(obj) < MaxObj
              /\ b \in 1..Len(buf)
              /\ obj' = Append(obj, b) /\ born' = Append(born, buf[b])
              /\ tmp' = tmp \ {b}
              /\ UNCHANGED buf
Fail == tmp' = {} /\ UNCHANGED <<buf, obj, born>>
Next == \/ \E v \in Vals : Alloc(v)
        \/ \E b \in 1..Len(buf), v \in Vals : Scratch(b, v)
        \/ \E b \in 1..Len(buf) : Publish(b)
        \/ Fail
Spec == Init /\ [][Next]_vars

Content(i) == buf[obj[i]]
Immutable == \A i \in 1..Len(obj) : Content(i) = born[i]
NoWriteAlias == \A b \in tmp : \A i \in 1..Len(obj) : obj[i] # b
Stable == [][\A i \in 1..Len(obj) : Len(obj') >= i /\ buf'[obj'[i]] = buf[obj[i]]]_vars
=============================================================================
