SPECIFICATION Spec
INVARIANTS MeshClosed SignAndDistanceAgree AcrossFaces
CHECK_DEADLOCK FALSE
