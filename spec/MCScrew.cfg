SPECIFICATION Spec
INVARIANTS WithinPitch UpOnePitch OnceAround Lead Handed Ordered Repeats
CHECK_DEADLOCK FALSE
