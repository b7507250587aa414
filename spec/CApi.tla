-------------------------------- MODULE CApi --------------------------------
(***************************************************************************)
(* The C interface: every function goes through the same stages - read its *)
(* input, check the announced sizes, call the library, check that the      *)
(* result fits into the caller's buffer - and returns 0 from the first     *)
(* that fails, else the size of the result.  The machine below walks       *)
(* through the stages of one call; the recorded call must return the same. *)
(* Case: fn; msg, hdr = 1: the bytes are a message / the payload has a     *)
(*   header; raw, praw, data = size of the points announced by the message *)
(*   (or the description) and by the payload's header, and the size of the *)
(*   message's data, as decimal strings ("big": more than 32 bits);        *)
(*   rawok = 1: praw and raw are the same;    step0 = 1: point step 0;      *)
(*   lib = 1: the library calls succeed, libn: size of their result;       *)
(*   limit: bytes the caller provides;  ret (decimal string), same = 1:    *)
(*   the library's bytes were written; thrown = 1: an exception came out   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, stage, ret
vars == <<c, stage, ret>>
K == Cases[c]
NeedsMessage == {"GetHeaderAsYAMLFromDDS", "ComputeCompressedSize", "GetDecompressedSize", "ConvertCompressedMsgToPointCloud2Msg", "DecodeCompressedMessage", "EncodePointcloudMessage"}
NeedsHeader == {"GetHeaderAsYAML", "GetHeaderAsYAMLFromDDS", "DecodeCompressedData", "DecodeCompressedMessage"}
Encodes == {"ComputeCompressedSize", "EncodePointcloudMessage"}
Limited == {"EncodePointcloudMessage", "EncodePointcloudData"}
Init == c \in 1..Len(Cases) /\ stage = "read" /\ ret = "?"
Fail == stage' = "done" /\ ret' = "0" /\ UNCHANGED c
To(s) == stage' = s /\ UNCHANGED <<c, ret>>
Read == stage = "read" /\ (IF (K.fn \in NeedsMessage /\ K.msg = 0) \/ (K.fn \in NeedsHeader /\ K.hdr = 0) THEN Fail ELSE To("sizes"))
Sizes == stage = "sizes" /\
  (IF \/ K.fn \in Encodes /\ K.raw # K.data
      \/ K.fn = "EncodePointcloudMessage" /\ K.step0 = 1
      \/ K.fn = "GetDecompressedSize" /\ K.raw = "big"
      \/ K.fn = "DecodeCompressedMessage" /\ K.rawok = 0
      \/ K.fn = "DecodeCompressedData" /\ K.praw = "big"
   THEN Fail ELSE To("library"))
Library == stage = "library" /\
  (IF K.fn = "GetDecompressedSize" THEN stage' = "done" /\ ret' = K.raw /\ UNCHANGED c
   ELSE IF K.lib = 0 THEN Fail ELSE To("fit"))
Fit == stage = "fit" /\ (IF K.fn \in Limited /\ K.libn > K.limit THEN Fail ELSE stage' = "done" /\ ret' = ToString(K.libn) /\ UNCHANGED c)
Verdict == IF K.thrown = 1 THEN "Thrown" ELSE IF K.ret # ret THEN (IF ret = "0" THEN "NotReported" ELSE IF K.ret = "0" THEN "Fails" ELSE "Size")
           ELSE IF ret # "0" /\ K.fn \notin {"GetDecompressedSize", "ComputeCompressedSize"} /\ K.same # 1 THEN "Bytes" ELSE "ok"
Report == stage = "done" /\ stage' = "end" /\ PrintT(<<"D", c, Verdict, ret>>) /\ UNCHANGED <<c, ret>>
Next == Read \/ Sizes \/ Library \/ Fit \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
