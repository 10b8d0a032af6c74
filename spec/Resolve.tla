------------------------------ MODULE Resolve ------------------------------
(* Path resolution over an abstract image tree T.                            *)
(*                                                                           *)
(* T.nodes[i] is a record with a field kind in {"dir","reg","lnk",...};      *)
(* directories have ents (name -> node); links have tabs (absolute?),        *)
(* tcomps (the target split at "/") and tlen.  Node 1 is the root.           *)
(*                                                                           *)
(* Paths are sequences of components, "" for doubled or trailing slashes.    *)
(* Results: [st |-> "ok"|"noent"|"notdir"|"loop"|"long",                     *)
(*           stk |-> nodes from the root to the one reached,                 *)
(*           used |-> links followed, taint |-> "no"|"may"|"must",           *)
(*           mlong |-> may also be refused as too long]                      *)
(* taint: does the resolution read an undecodable block ("must"), or can it  *)
(* depending on how directories are searched ("may").                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxChain,    \* links in one chain
          MaxDepth,    \* nesting of links within the targets of links
          MaxTotal,    \* links in one resolution
          PathMax      \* length of a path to a link, and of a target
Root == 1
IsDir(T, n) == T.nodes[n].kind = "dir"
IsLnk(T, n) == T.nodes[n].kind = "lnk"

RECURSIVE NormFrom(_, _, _)
\* lexical normalisation: <<"/up">> if it climbs above the root
NormFrom(acc, cs, i) ==
  IF i > Len(cs) THEN acc
  ELSE LET c == cs[i] IN
       IF c = "" \/ c = "." THEN NormFrom(acc, cs, i + 1)
       ELSE IF c = ".." THEN IF acc = <<>> THEN <<"/up">> ELSE NormFrom(SubSeq(acc, 1, Len(acc) - 1), cs, i + 1)
       ELSE NormFrom(Append(acc, c), cs, i + 1)
Norm(cs) == NormFrom(<<>>, cs, 1)
Above(cs) == cs = <<"/up">>

RECURSIVE TextLenFrom(_, _)
TextLenFrom(cs, i) == IF i > Len(cs) THEN 0 ELSE Len(cs[i]) + 1 + TextLenFrom(cs, i + 1)
TextLen(cs) == TextLenFrom(cs, 1)

\* Damage of a directory listing or inode, for images with undecodable blocks
ListTaint(T, d, name) ==
  IF "lt" \notin DOMAIN T.nodes[d] THEN "no"     \* lt: names with damaged records, fb: the first one's place
  ELSE LET nd == T.nodes[d]
           lt == { nd.lt[i] : i \in 1..Len(nd.lt) }
       IN IF lt = {} THEN nd.bl
          ELSE IF name \in lt THEN "must"
          ELSE IF nd.bl = "no" /\ name \in DOMAIN nd.ents /\ \A i \in 1..Len(nd.names) : nd.names[i] = name => i < nd.fb THEN "no"
          ELSE "may"
InodeTaint(T, n) == IF "it" \in DOMAIN T.nodes[n] THEN T.nodes[n].it ELSE "no"
BodyTaint(T, n) == IF "bl" \in DOMAIN T.nodes[n] THEN T.nodes[n].bl ELSE "no"
Worse(a, b) == IF a = "must" \/ b = "must" THEN "must" ELSE IF a = "may" \/ b = "may" THEN "may" ELSE "no"

Res(st, stk, used, taint, ml) == [st |-> st, stk |-> stk, used |-> used, taint |-> taint, mlong |-> ml]
Top(s) == s[Len(s)]
Child(T, d, c) == IF c \in DOMAIN T.nodes[d].ents THEN T.nodes[d].ents[c] ELSE 0

(* A root alias is an absolute prefix, ending in a slash, of link targets that stands for the *)
(* image root; al is a set of component sequences (without the empty ones).  *)
StripAlias(al, tabs, tc) ==
  IF ~ tabs THEN tc
  ELSE LET m == { a \in al : Len(a) + 1 < Len(tc) /\ SubSeq(tc, 2, Len(a) + 1) = a }
       IN IF m = {} THEN tc ELSE LET a == CHOOSE a \in m : TRUE IN <<"">> \o SubSeq(tc, Len(a) + 2, Len(tc))

(* ------------------------------------------------------------------------ *)
(* What the library does.  c is the context [T, al, raw: length of the path  *)
(* given].  A walk keeps the directories it came through (stk); a link is    *)
(* replaced by walking its target from the link's own directory or the root, *)
(* until what is reached is not a link.                                      *)
RECURSIVE Walk(_, _, _, _, _, _, _, _, _)
RECURSIVE FollowLink(_, _, _, _, _, _, _)
IsTop(cs, i) == i = Len(cs) \/ (i = Len(cs) - 1 /\ cs[Len(cs)] = "")
Walk(c, stk, cs, i, follow, depth, used, taint, ml) ==
  IF i > Len(cs) THEN Res("ok", stk, used, taint, ml)
  ELSE LET x == cs[i]  cur == Top(stk)  T == c.T IN
       IF x = "" \/ x = "." THEN Walk(c, stk, cs, i + 1, follow, depth, used, taint, ml)
       ELSE IF ~ IsDir(T, cur) THEN Res("notdir", stk, used, taint, ml)
       ELSE IF x = ".."
       THEN IF Len(stk) = 1 THEN Res("noent", stk, used, taint, ml)
            ELSE Walk(c, SubSeq(stk, 1, Len(stk) - 1), cs, i + 1, follow, depth, used, taint, ml)
       ELSE LET k == Child(T, cur, x)
                t1 == Worse(taint, ListTaint(T, cur, x))
            IN IF k = 0 THEN Res("noent", stk, used, t1, ml)
               ELSE LET t2 == Worse(t1, InodeTaint(T, k)) IN
                    IF IsLnk(T, k) /\ (~ IsTop(cs, i) \/ follow)
                    THEN IF depth = 0 /\ TextLen(SubSeq(cs, 1, i)) - 1 > PathMax THEN Res("long", stk, used, t2, ml)
                         ELSE LET r == FollowLink(c, Append(stk, k), 0, depth, used, t2,
                                                  ml \/ (depth = 0 /\ c.raw > PathMax)) IN
                              IF r.st # "ok" THEN r
                              ELSE Walk(c, r.stk, cs, i + 1, follow, depth, r.used, r.taint, r.mlong)
                    ELSE Walk(c, Append(stk, k), cs, i + 1, follow, depth, used, t2, ml)
FollowLink(c, stk, chain, depth, used, taint, ml) ==
  LET lnk == Top(stk)
      nd == c.T.nodes[lnk]
      t1 == Worse(taint, BodyTaint(c.T, lnk))
  IN IF depth >= MaxDepth THEN Res("loop", stk, used, taint, ml)
     ELSE IF nd.tlen >= PathMax THEN Res("long", stk, used, t1, ml)
     ELSE IF used >= MaxTotal THEN Res("loop", stk, used, t1, ml)
     ELSE LET r == Walk(c, IF nd.tabs THEN <<Root>> ELSE SubSeq(stk, 1, Len(stk) - 1),
                        StripAlias(c.al, nd.tabs, nd.tcomps), 1, FALSE, depth + 1, used + 1, t1, ml) IN
          IF r.st # "ok" THEN r
          ELSE IF chain + 1 > MaxChain THEN Res("loop", stk, r.used, r.taint, ml)
          ELSE IF IsLnk(c.T, Top(r.stk)) THEN FollowLink(c, r.stk, chain + 1, depth, r.used, r.taint, r.mlong)
          ELSE r

(* The argument path is normalised lexically, link targets are not.          *)
LookupFrom(T, al, d, path, follow) ==
  LET cs == Norm(path) IN
  IF Above(cs) THEN Res("noent", <<>>, 0, InodeTaint(T, d), FALSE)
  ELSE Walk([T |-> T, al |-> al, raw |-> TextLen(path)], <<d>>, cs, 1, follow, 0, 0, InodeTaint(T, d), FALSE)
Lookup(T, al, path, follow) == LookupFrom(T, al, Root, path, follow)

(* ------------------------------------------------------------------------ *)
(* Independent reference: one component at a time with the target of a link  *)
(* spliced in front of what is left.                                         *)
RECURSIVE Splice(_, _, _, _, _, _)
Splice(T, al, stk, cs, follow, used) ==
  LET cur == Top(stk) IN
  IF cs = <<>> THEN [st |-> "ok", n |-> cur, used |-> used]
  ELSE LET x == Head(cs)  rest == Tail(cs) IN
       IF x = "" \/ x = "." THEN Splice(T, al, stk, rest, follow, used)
       ELSE IF ~ IsDir(T, cur) THEN [st |-> "notdir", n |-> 0, used |-> used]
       ELSE IF x = ".." THEN IF Len(stk) = 1 THEN [st |-> "noent", n |-> 0, used |-> used]
                             ELSE Splice(T, al, SubSeq(stk, 1, Len(stk) - 1), rest, follow, used)
       ELSE LET k == Child(T, cur, x) IN
            IF k = 0 THEN [st |-> "noent", n |-> 0, used |-> used]
            ELSE IF IsLnk(T, k) /\ (follow \/ rest \notin {<<>>, <<"">>})
                 THEN IF used >= MaxTotal THEN [st |-> "loop", n |-> 0, used |-> used]
                      ELSE LET tc == StripAlias(al, T.nodes[k].tabs, T.nodes[k].tcomps) IN
                           Splice(T, al, IF T.nodes[k].tabs THEN <<Root>> ELSE stk, tc \o rest, follow, used + 1)
                 ELSE Splice(T, al, Append(stk, k), rest, follow, used)
PosixLookup(T, al, path, follow) ==
  LET cs == Norm(path) IN
  IF Above(cs) THEN [st |-> "noent", n |-> 0, used |-> 0] ELSE Splice(T, al, <<Root>>, cs, follow, 0)
============================================================================
