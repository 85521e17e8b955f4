------------------------------ MODULE SurveyRun -----------------------------
(* Survey.tla on the grids of the real programs, with the critical temperatures they reported. *)
EXTENDS Survey, IOUtils
InputsRun == JsonDeserialize(IOEnv.VERIF_INPUTS)
=============================================================================
