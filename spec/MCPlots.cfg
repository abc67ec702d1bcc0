SPECIFICATION Spec
INVARIANTS RefAccepted LostParticle Bounded FinalValue SlopeAccepted LinMeetsSteps ReportOrdered ReportRight PathEnds AllShown SpotsAgree Tails
CHECK_DEADLOCK FALSE
