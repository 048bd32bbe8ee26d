------------------------------- MODULE FlvFmt -------------------------------
(* The FLV container, byte by byte.  Mux is what the muxer must write, Demux  *)
(* what the demuxer must deliver for ANY sequence of bytes.                   *)
(*                                                                            *)
(* A packet: kind "audio" | "video" | "script"; dts: 4 bytes, most           *)
(* significant first; cts: 3 bytes (two's complement, pts - dts); flags and   *)
(* ptype: bytes; data: the payload.                                           *)
EXTENDS Naturals, Sequences

Byte == 0..255
Header == <<70, 76, 86, 1, 5, 0, 0, 0, 9>>
MaxTag == 1048576           \* the demuxer's buffer: larger tags are refused

U24(n) == <<(n \div 65536) % 256, (n \div 256) % 256, n % 256>>
U32(n) == <<(n \div 16777216) % 256>> \o U24(n % 16777216)
N24(b) == b[1] * 65536 + b[2] * 256 + b[3]

TagType(k) == CASE k = "audio" -> 8 [] k = "video" -> 9 [] k = "script" -> 18
Info(flags) == flags \div 16 = 5          \* video info/command frame: no ptype, no cts

(* bytes between the tag header and the payload *)
Sub(p) == CASE p.kind = "script" -> <<>>
            [] p.kind = "audio"  -> <<p.flags, p.ptype>>
            [] p.kind = "video"  -> IF Info(p.flags) THEN <<p.flags>>
                                    ELSE <<p.flags, p.ptype>> \o p.cts

(* one tag: back pointer, tag header, sub header; the payload (n bytes) follows *)
TagHead(p, n, prev) ==
  U32(prev) \o <<TagType(p.kind)>> \o U24(Len(Sub(p)) + n)
            \o <<p.dts[2], p.dts[3], p.dts[4], p.dts[1]>> \o <<0, 0, 0>> \o Sub(p)
TagSize(p, n) == 11 + Len(Sub(p)) + n

RECURSIVE MuxFrom(_, _)
MuxFrom(ps, prev) ==
  IF ps = <<>> THEN <<>>
  ELSE TagHead(Head(ps), Len(Head(ps).data), prev) \o Head(ps).data
       \o MuxFrom(Tail(ps), TagSize(Head(ps), Len(Head(ps).data)))
Mux(ps) == Header \o MuxFrom(ps, 0)

----------------------------------------------------------------------------
Accepted(kind, flags) ==
  CASE kind = "script" -> TRUE
    [] kind = "audio"  -> flags \div 16 = 10           \* AAC
    [] kind = "video"  -> flags % 16 \in {7, 12}       \* H.264, H.265

KindOf(t) == CASE t = 8 -> "audio" [] t = 9 -> "video" [] t = 18 -> "script" [] OTHER -> "none"
SubLen(kind, flags) == CASE kind = "script" -> 0 [] kind = "audio" -> 2
                         [] kind = "video" -> IF Info(flags) THEN 1 ELSE 5

(* packets of the well-formed prefix of b, from offset o (bytes already used) *)
RECURSIVE DemuxFrom(_, _)
DemuxFrom(b, o) ==
  IF Len(b) < o + 15 THEN <<>>
  ELSE LET kind == KindOf(b[o + 5])
           size == N24(<<b[o + 6], b[o + 7], b[o + 8]>>)
           d    == o + 15
       IN IF kind = "none" \/ size > MaxTag \/ size = 0 \/ Len(b) < d + size THEN <<>>
          ELSE LET flags == IF kind = "script" THEN 0 ELSE b[d + 1]
                   sl    == SubLen(kind, flags)
               IN IF ~Accepted(kind, flags) \/ size <= sl THEN <<>>
                  ELSE <<[kind  |-> kind,
                          dts   |-> <<b[o + 12], b[o + 9], b[o + 10], b[o + 11]>>,
                          cts   |-> IF kind = "video" /\ sl = 5 THEN <<b[d + 3], b[d + 4], b[d + 5]>> ELSE <<0, 0, 0>>,
                          flags |-> flags,
                          ptype |-> IF sl >= 2 THEN b[d + 2] ELSE 0,
                          data  |-> SubSeq(b, d + sl + 1, d + size)]>>
                       \o DemuxFrom(b, d + size)

HeaderOK(b) == Len(b) >= 9 /\ SubSeq(b, 1, 3) = <<70, 76, 86>>
Demux(b) == IF HeaderOK(b) THEN DemuxFrom(b, 9) ELSE <<>>
=============================================================================
