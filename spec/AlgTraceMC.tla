---------------------------- MODULE AlgTraceMC -----------------------------
EXTENDS AlgTrace
TraceNext == TraceStep(JudgeAlg)
=============================================================================
