---------------------------- MODULE ResDesignMC -----------------------------
EXTENDS ResDesign
Names == {V, W, H, NH, E, NE, X}
Up1(S) == {{}} \cup {{x} : x \in S}
Replies0 == {reply("nx", {}, {}, {}), reply("fail", {}, {}, {}), reply("nodata", {}, {}, {}), reply("ok", {}, {}, {})}

\* all replies with one record in the answer or up to one record of each kind
As == {rec(n, "A", a) : n \in Names, a \in {A2, A3}}
NSs == {rec(n, "NS", h) : n \in {R} \cup Names, h \in {NH, NE, X, W}}
CNs == {rec(n, "CN", d) : n \in {X, NE, W, NH}, d \in {W, X, NE, NH}}
All == Replies0 \cup {reply("ok", {r}, {}, {}) : r \in As \cup NSs}
   \cup {reply("ok", c, au, ad) : c \in Up1(CNs), au \in Up1(NSs), ad \in Up1(As)}

\* a selection that leaves out some that differ only in names that the malicious server controls
NSm == {rec(n, "NS", h) : n \in {R, V, W, E, X}, h \in {NH, NE, W}}
CNm == {rec(n, "CN", d) : n \in {X, NE}, d \in {W, NE, NH}}
Am == {rec(n, "A", A3) : n \in {W, NH, NE}}
Most == Replies0 \cup {reply("ok", {r}, {}, {}) : r \in {rec(n, "A", A3) : n \in {W, NH, NE, X}} \cup NSm}
   \cup {reply("ok", c, au, ad) : c \in Up1(CNm), au \in Up1(NSm), ad \in Up1(Am)}

Few == Replies0 \cup {reply("ok", {r}, {}, {}) : r \in {rec(X, "A", A3), rec(W, "A", A3), rec(X, "NS", NE)}}
   \cup {reply("ok", c, au, ad) : c \in Up1({rec(X, "CN", W)}), au \in Up1({rec(V, "NS", NE), rec(X, "NS", NH), rec(X, "NS", NE)}), ad \in Up1(Am)}

MX == <<"m", "x", "e">>
\* replies that keep the resolver busy: servers without addresses, below and beside one another
Busy == Replies0 \cup {reply("ok", {r}, {}, {}) : r \in {rec(X, "CN", W), rec(X, "CN", NE), rec(NE, "A", A3), rec(NE, "CN", X)}}
   \cup {reply("ok", {}, {a, b}, c) : a, b \in {rec(X, "NS", NE), rec(X, "NS", W), rec(X, "NS", MX), rec(MX, "NS", X), rec(MX, "NS", NE), rec(NE, "NS", X), rec(E, "NS", X)},
                                      c \in Up1({rec(NE, "A", A3), rec(X, "A", A3)})}

JustX == <<X>>
XW == <<X, W>>
=============================================================================
