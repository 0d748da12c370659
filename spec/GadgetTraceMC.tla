---------------------------- MODULE GadgetTraceMC --------------------------
EXTENDS GadgetTrace
TraceNext == TraceStep(JudgeGadget)
=============================================================================
