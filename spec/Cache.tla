------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* P03: the constructors' cache.  A request names a constructor, the       *)
(* argument values and the way they are passed (which arguments are        *)
(* positional, by name, or left to their default).  The cache is keyed by  *)
(* what Key extracts from a call; a miss builds a new structure.           *)
(* KeyBy:  "bound"  all argument values after binding (the implementation) *)
(*         "written" only the arguments as written in the call             *)
(*         "positional" only positional argument values                    *)
(* Keep: FALSE forgets structures (a bounded cache).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS KeyBy, Keep, MaxReq
Vals == {2, 3}
Default == 2
Forms == {"pos", "name", "default"}
(* a call to constructor f with two arguments; the second has a default    *)
Calls == [f : {"ring", "field"}, a : Vals, b : Vals, how : Forms]
Legal(c) == c.how = "default" => c.b = Default
Meaning(c) == <<c.f, c.a, c.b>>
KeyOf(c) == CASE KeyBy = "bound" -> <<c.f, "a", c.a, "b", c.b>>
              [] KeyBy = "written" -> IF c.how = "pos" THEN <<c.f, "a", c.a, "b", c.b>>
                                      ELSE IF c.how = "name" THEN <<c.f, "a=", c.a, "b=", c.b>> ELSE <<c.f, "a", c.a>>
              [] KeyBy = "positional" -> IF c.how = "pos" THEN <<c.f, c.a, c.b>> ELSE <<c.f, c.a>>
VARIABLES cache, hist, next
Init == cache = {} /\ hist = <<>> /\ next = 1
Hit(c) == { e \in cache : e.key = KeyOf(c) }
Request(c) ==
  /\ Legal(c) /\ Len(hist) < MaxReq
  /\ IF Hit(c) # {}
     THEN /\ hist' = Append(hist, [call |-> c, id |-> (CHOOSE e \in Hit(c) : TRUE).id])
          /\ UNCHANGED <<cache, next>>
     ELSE /\ hist' = Append(hist, [call |-> c, id |-> next])
          /\ next' = next + 1
          /\ cache' = (IF Keep \/ Cardinality(cache) < 2 THEN cache ELSE {}) \cup {[key |-> KeyOf(c), id |-> next, m |-> Meaning(c)]}
Next == \E c \in Calls : Request(c)
SameOnce == \A i, j \in 1..Len(hist) : Meaning(hist[i].call) = Meaning(hist[j].call) => hist[i].id = hist[j].id
NeverShared == \A i, j \in 1..Len(hist) : hist[i].id = hist[j].id => Meaning(hist[i].call) = Meaning(hist[j].call)
=============================================================================
