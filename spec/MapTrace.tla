------------------------------ MODULE MapTrace ------------------------------
(* Judges the images recorded from dorado's maps and animations.             *)
EXTENDS Maps, Records

(* area maps are coloured on the scale least value .. 1, time maps on the    *)
(* scale least .. greatest value                                             *)
HeatFails(r) ==
  IF r.err # "" THEN {F("map.error", r.err)}
  ELSE IF ~SameShape(r.drawn, r.m) THEN {F("map.shape", r.drawn)}
  ELSE When(~Colours(r.drawn, r.m, Least(r.m), IF r.fn = "area" THEN r.one ELSE Greatest(r.m), r.slack),
            "map.colour", <<r.m, r.drawn>>)
       \cup When(~Opacity(r.drawn, r.m, r.minalpha), "map.opacity", <<r.m, r.drawn>>)
       \cup When(~r.upright, "map.orientation", "rows do not run downwards")
       \cup When(~r.onto, "map.axes", "not in the axes in use")
       \cup When(r.bar # <<>> /\ (Abs(r.bar[1] - Least(r.m)) > 1 \/ Abs(r.bar[2] - Greatest(r.m)) > 1),
                 "map.bar", <<r.bar, r.m>>)
       \cup When(r.grid # r.under, "map.background", r.under)
       \* the start of the first particle, column across and row down
       \cup When(r.marked # (IF r.walk \in {"seed", "default"} THEN <<<<r.seed[1][2], r.seed[1][1]>>>> ELSE <<>>),
                 "map.seed", r.marked)
       \cup When(~r.same, "map.input", "inputs were changed")

SpatialFails(r) ==
  IF r.err # "" THEN {F("map.error", r.err)}
  ELSE When(Len(r.panels) # Len(r.maps), "map.panels", Len(r.panels))
       \cup When(r.naxes # Len(r.maps), "map.axes", r.naxes)
       \cup UNION { When(i \in DOMAIN r.panels /\ r.panels[i].data # r.maps[i], "map.values", <<i, r.panels[i], r.maps[i]>>)
                    \cup When(i \in DOMAIN r.panels /\ r.panels[i].under # r.elev, "map.background", <<i, r.panels[i]>>)
                    \cup When(i \in DOMAIN r.panels /\ ~r.panels[i].fits, "map.extent", i)
                    \cup When(i \in DOMAIN r.panels /\ ~Levels(r.panels[i].levels, r.top, r.nlev),
                              "map.levels", r.panels[i].levels)
                  : i \in DOMAIN r.maps }
       \cup When(~Levels(r.barlevels, r.top, r.nlev), "map.levels", r.barlevels)
       \cup When(~r.same, "map.input", "inputs were changed")

(* shown: number of the figure in each frame, 0 if it is none of them        *)
AnimFails(r) ==
  IF r.err # "" THEN {F("map.error", r.err)}
  ELSE When(r.shown # Frames(r.from, r.upto), "map.frames", r.shown)
       \cup When(~r.upright, "map.orientation", "frame upside down")
       \cup When(r.file # "animation.mp4", "map.file", r.file)

MapVerdict(r) ==
  CASE r.kind = "heat" -> HeatFails(r)
    [] r.kind = "spatial" -> SpatialFails(r)
    [] r.kind = "anim" -> AnimFails(r)
=============================================================================
