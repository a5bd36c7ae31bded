------------------------------- MODULE MCFerry ------------------------------
EXTENDS Ferry
Two == ("d1" :> ("A" :> TRUE)) @@ ("d2" :> ("B" :> TRUE))
Hidden == ("d1" :> ("A" :> TRUE @@ "H" :> FALSE)) @@ ("d2" :> ("B" :> TRUE))
Replicated == ("d1" :> ("A" :> TRUE)) @@ ("d2" :> ("B" :> TRUE)) @@ ("d3" :> ("B" :> TRUE))
Three == ("d1" :> ("A" :> TRUE @@ "H" :> FALSE)) @@ ("d2" :> ("B" :> TRUE)) @@ ("d3" :> ("B" :> TRUE @@ "C" :> TRUE))
Bound == Len(links) <= MaxLinks
=============================================================================
