------------------------------- MODULE Server -------------------------------
(* What a server may reply to the bytes of a request (N01, N02).               *)
EXTENDS Zone

\* Kinds of unsupported things met while reading the message from front to back
RECURSIVE Walk(_, _, _, _)
Walk(b, p, k, acc) ==      \* k: index of the entry, counting through all sections
    LET h == Header(b)
        total == h.qc + h.ac + h.nc + h.rcnt
        isQ == k <= h.qc
    IN IF k > total THEN acc
       ELSE LET r == Name(b, p) IN
            IF r.v = "bad" \/ r.next + 4 > Len(b) THEN acc
            ELSE LET t == U16(b, r.next)
                     c == U16(b, r.next + 2)
                     f == (IF t \in UnsupportedTypes \/ (t \in SupportedTypes /\ c \in KnownClasses \ {1})
                           THEN {IF isQ THEN "unsupQ" ELSE "unsupR"} ELSE {})
                          \cup (IF isQ /\ (t \notin SupportedTypes \cup UnsupportedTypes \/ c \notin KnownClasses) THEN {"unknownQ"} ELSE {})
                 IN IF isQ THEN Walk(b, TLCEval(r.next + 4), k + 1, TLCEval(acc \cup f))
                    ELSE IF r.next + 10 > Len(b) \/ r.next + 10 + U16(b, r.next + 8) > Len(b) THEN acc \cup f
                    ELSE Walk(b, TLCEval(r.next + 10 + U16(b, r.next + 8)), k + 1, TLCEval(acc \cup f))

(* The class of a request:                                                     *)
(*   codes   error codes it may be answered with because of its form           *)
(*   normal  whether it may be treated as a proper request                     *)
(*   q       its question, if it is a well-formed request with one             *)
Classify(b) ==
    LET h == Header(b)
        s == TLCEval(Decode(b))
        w == TLCEval(Walk(b, 12, 1, {}))
        form == s.v = "bad" \/ h.qr = 1 \/ h.ac > 0 \/ h.nc > 0 \/ h.qc # 1
        notimp == h.op # 0 \/ w # {}
        odd == s.v = "lax" \/ h.rc # 0 \/ h.tc # 0
    IN IF form /\ notimp THEN [codes |-> {1, 4}, normal |-> FALSE]
       ELSE IF form THEN [codes |-> {1}, normal |-> FALSE]
       ELSE IF h.op # 0 \/ "unsupQ" \in w THEN [codes |-> {4}, normal |-> FALSE]
       ELSE IF "unknownQ" \in w THEN [codes |-> {1, 4}, normal |-> FALSE]
       ELSE IF odd THEN [codes |-> {1, 4}, normal |-> TRUE]
       ELSE [codes |-> {}, normal |-> TRUE]

\* header fields every reply has to carry
EchoOk(b, m, ra) ==
    LET h == Header(b) IN
    /\ m.h.id = h.id /\ m.h.qr = 1 /\ m.h.op = h.op /\ m.h.rd = h.rd /\ m.h.z = 0 /\ m.h.ra = ra

\* the question of a well-formed single-question request comes back
QuestionOk(b, m) == LET s == Decode(b) IN m.q = s.m.q

\* N01: exactly one reply to a readable request, well-formed and matching
Matching(b, rb, ra) ==
    LET s == TLCEval(Decode(rb))
        c == TLCEval(Classify(b))
    IN /\ Len(rb) >= 12 /\ s.v # "bad" /\ s.rest = 0
       /\ EchoOk(b, s.m, ra)
       /\ (c.normal /\ s.m.h.rc \notin c.codes) => QuestionOk(b, s.m)

RepliesOk(b, replies, ra) ==
    IF HeaderReadable(b) THEN Len(replies) = 1 /\ Matching(b, replies[1], ra) ELSE replies = <<>>

\* N02: the result code.  Proper(q) is the set of codes the answer to a proper request for q may have
CodeOk(b, replies, Proper(_)) ==
    HeaderReadable(b) =>
        /\ replies # <<>>
        /\ Len(replies[1]) >= 12
        /\ LET c == TLCEval(Classify(b))
               s == TLCEval(Decode(replies[1]))
               rc == Header(replies[1]).rc
           IN \/ rc \in c.codes /\ (s.v # "bad" => s.m.an = <<>>)
              \/ c.normal /\ rc \in Proper(Decode(b).m.q[1])

\* N03, N04: the answer of a name server to a proper request for a name that Sel selects
AnswersOk(Z, b, replies, Which(_)) ==
    HeaderReadable(b) =>
        LET c == TLCEval(Classify(b))
            q == Decode(b).m.q[1]
        IN (c.normal /\ Which(q)) =>
              /\ Len(replies) = 1
              /\ LET s == TLCEval(Decode(replies[1])) IN
                 /\ s.v # "bad"
                 /\ s.m.h.rc \notin c.codes => AnswerOk(Z, q.n, q.t, s.m)
=============================================================================
