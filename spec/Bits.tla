-------------------------------- MODULE Bits --------------------------------
(* The bit reader and writer.  Contents are symbolic: buf[i] says where bit i *)
(* of the buffer comes from: <<0, i>> is the initial bit i, <<k, j>> is bit j *)
(* (j = 0: most significant of those written) of the k-th write.  A read must *)
(* return exactly the bits it names.                                          *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Bytes,    \* buffer size
          RWidths,  \* widths of reads (at most 32)
          WWidths,  \* widths of writes (at most 64)
          Mode0,    \* mode in which a behaviour starts: "w" or "r"
          MaxHist
VARIABLES buf, pos, mode, k, hist
vars == <<buf, pos, mode, k, hist>>
Bits == 8 * Bytes
View == <<pos, mode>>

Init == /\ buf = [i \in 1..Bits |-> <<0, i - 1>>]
        /\ pos = 0 /\ mode = Mode0 /\ k = 0 /\ hist = <<>>

Left == Bits - pos
Log(r) == hist' = Append(hist, r)

Read(w) == /\ mode = "r" /\ w <= Left
           /\ pos' = pos + w
           /\ Log([a |-> "Read", w |-> w, v |-> [i \in 1..w |-> buf[pos + i]], left |-> Left - w])
           /\ UNCHANGED <<buf, mode, k>>

ReadBytes(n) == /\ mode = "r" /\ pos % 8 = 0 /\ 8 * n <= Left
                /\ pos' = pos + 8 * n
                /\ Log([a |-> "ReadBytes", w |-> n, v |-> [i \in 1..8 * n |-> buf[pos + i]], left |-> Left - 8 * n])
                /\ UNCHANGED <<buf, mode, k>>

SkipRead(n) == /\ mode = "r" /\ 8 * n <= Left
               /\ pos' = pos + 8 * n
               /\ Log([a |-> "SkipRead", w |-> n, v |-> <<>>, left |-> Left - 8 * n])
               /\ UNCHANGED <<buf, mode, k>>

Write(w) == /\ mode = "w" /\ w <= Left
            /\ pos' = pos + w /\ k' = k + 1
            /\ buf' = [i \in 1..Bits |-> IF i > pos /\ i <= pos + w THEN <<k + 1, i - pos - 1>> ELSE buf[i]]
            /\ Log([a |-> "Write", w |-> w, k |-> k + 1, left |-> Left - w])
            /\ UNCHANGED mode

WriteBytes(n) == /\ mode = "w" /\ pos % 8 = 0 /\ 8 * n <= Left
                 /\ pos' = pos + 8 * n /\ k' = k + 1
                 /\ buf' = [i \in 1..Bits |-> IF i > pos /\ i <= pos + 8 * n THEN <<k + 1, i - pos - 1>> ELSE buf[i]]
                 /\ Log([a |-> "WriteBytes", w |-> n, k |-> k + 1, left |-> Left - 8 * n])
                 /\ UNCHANGED mode

SkipWrite(n) == /\ mode = "w" /\ pos % 8 = 0 /\ 8 * n <= Left
                /\ pos' = pos + 8 * n
                /\ Log([a |-> "SkipWrite", w |-> n, left |-> Left - 8 * n])
                /\ UNCHANGED <<buf, mode, k>>

(* start over, reading what is there; `upto`: bits that are defined *)
Turn == /\ mode = "w" /\ k > 0 /\ pos % 8 = 0
        /\ mode' = "r" /\ pos' = 0
        /\ Log([a |-> "Turn", w |-> 0, left |-> Bits])
        /\ UNCHANGED <<buf, k>>

Next == /\ Len(hist) < MaxHist
        /\ \/ \E w \in RWidths : Read(w)
           \/ \E w \in WWidths : Write(w)
           \/ \E n \in 0..Bytes : ReadBytes(n) \/ SkipRead(n) \/ WriteBytes(n) \/ SkipWrite(n)
           \/ Turn
Spec == Init /\ [][Next]_vars

(* reading returns consecutive bits and the cursor is where the sum of widths puts it *)
PosOK == pos \in 0..Bits
NoFuture == \A i \in 1..Bits : buf[i][1] <= k
Emit == PrintT("B:" \o ToJson(hist'))
EmitEnd == Len(hist') # MaxHist \/ PrintT("B:" \o ToJson(hist'))
=============================================================================
