--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* One run of cloudini_rosbag_converter as a step of the file system.      *)
(* st: [files: function from places to contents, dirs: set of directories] *)
(*   place: [d: directory (sequence of names), s: stem, e: extension]      *)
(* m: the command: help, junk (an unknown option), hasf, f (place), enc    *)
(*   (-c), dec (-d), viz, yes, ans (what is typed when asked), method,     *)
(*   prof ("none", or which profile), hasout, out (place), cwd, res        *)
(* Conv(x, o): content of a bag with content x converted with options o    *)
(* BadProf(p): is the profile malformed                                    *)
(* Kind(x): [bag, raw, comp]: is it a bag, has it raw / compressed clouds  *)
(* Meta(x, enc, name): metadata.yaml x for a converted bag called name     *)
(***************************************************************************)
EXTENDS Integers, Sequences
Front1(s) == SubSeq(s, 1, Len(s) - 1)
Name(p) == p.s \o p.e
AsDir(p) == Append(p.d, Name(p))
MetaIn(d) == [d |-> d, s |-> "metadata", e |-> ".yaml"]
Suffix(m) == IF m.enc = 1 THEN "_encoded" ELSE "_decoded"
(* which file is read; found: 0 if there is none *)
Source(st, m) ==
  IF AsDir(m.f) \in st.dirs
  THEN LET in == {p \in DOMAIN st.files : p.d = AsDir(m.f) /\ p.e = ".mcap"}
       IN IF MetaIn(AsDir(m.f)) \in DOMAIN st.files /\ \E p \in in : in = {p}
          THEN [found |-> 1, p |-> CHOOSE p \in in : TRUE] ELSE [found |-> 0, p |-> m.f]
  ELSE [found |-> IF m.f.e = ".mcap" /\ m.f \in DOMAIN st.files THEN 1 ELSE 0, p |-> m.f]
HasMeta(st, p) == MetaIn(p.d) \in DOMAIN st.files
Target(st, m, p) ==
  IF m.hasout = 1 THEN (IF m.out.e = ".mcap" THEN m.out ELSE [d |-> m.out.d, s |-> Name(m.out), e |-> ".mcap"])
  ELSE IF HasMeta(st, p) THEN [d |-> Append(Front1(p.d), p.d[Len(p.d)] \o Suffix(m)), s |-> p.s \o Suffix(m), e |-> ".mcap"]
  ELSE [d |-> m.cwd, s |-> p.s \o Suffix(m), e |-> ".mcap"]
Options(m) == [enc |-> m.enc, res |-> m.res, prof |-> m.prof, method |-> m.method, viz |-> m.viz]
Goes(m) == m.yes = 1 \/ m.ans \in {"y", "Y"}
If(b, x) == IF b THEN {x} ELSE {}
(* exit status (0, 1: not 0) of the reasons not to convert *)
Stops(st, m, BadProf(_), Kind(_)) ==
  IF m.help = 1 /\ m.junk = 0 THEN {0}
  ELSE IF m.junk = 1 \/ m.hasf = 0 THEN {1}
  ELSE If(m.enc = m.dec, 1) \cup If(m.viz = 1 /\ m.enc = 0, 1) \cup If(m.method \notin {"zstd", "none"}, 1) \cup If(m.dec = 1 /\ m.prof # "none", 1)
    \cup LET r == Source(st, m) p == r.p t == Target(st, m, p) IN
         If(t \in DOMAIN st.files /\ ~Goes(m), 0) \cup
         (IF r.found = 0 THEN {1}
          ELSE LET x == st.files[p] k == Kind(x) IN
              If(t = p, 1) \cup If(HasMeta(st, p) /\ t.d = p.d, 1)
              \cup (IF k.bag = 0 THEN {1} ELSE IF k.raw = 0 /\ k.comp = 0 THEN {0}
                    ELSE If(m.enc = 1 /\ k.raw = 0, 1) \cup If(m.dec = 1 /\ k.comp = 0, 1)
                         \cup If(m.enc = 1 /\ BadProf(m.prof), 1)))
With(f, p, x) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN x ELSE f[q]]
Without(f, p) == [q \in DOMAIN f \ {p} |-> f[q]]
(* what a successful run leaves *)
Done(st, m, Conv(_, _), Meta(_, _, _)) ==
  LET p == Source(st, m).p t == Target(st, m, p) f == With(st.files, t, Conv(st.files[p], Options(m)))
  IN IF HasMeta(st, p) THEN With(f, MetaIn(t.d), Meta(st.files[MetaIn(p.d)], m.enc, Name(t))) ELSE f
=============================================================================
