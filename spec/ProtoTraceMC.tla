--------------------------- MODULE ProtoTraceMC ----------------------------
EXTENDS ProtoTrace
TraceNext == TraceStep(JudgeProto)
=============================================================================
