---------------------------- MODULE PipelineRun ----------------------------
(* Pipeline.tla on the inputs of real runs, with the critical temperatures those runs reported. *)
EXTENDS Pipeline, IOUtils
InputsRun == JsonDeserialize(IOEnv.VERIF_INPUTS)
=============================================================================
