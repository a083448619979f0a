SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTRAINT StepLimit
CONSTANTS
  Wss = {"w1", "w2"}
  Nicks_ = {"n1"}
  MaxSaves = 2
  MaxSteps = 0
  MaxKind = 2
  Ops = {"new", "edit", "discard", "save", "add", "update", "load", "unload", "delete", "produce"}
  InitReg <- RegAB
INVARIANTS Registry InputIntegrity IndexTransparent IndexAdmitsIntact WriteProtected ReportAgrees
PROPERTIES CommandsKeepArchives OnlySaveAdds SaveAddsOne RefusalsChangeNothing OnlyTargetChanges IndexOnlyByOwners
  RegistryOnlyByOwners OtherInputsUntouched KindsAreKept SourcesUntouched FreshKinds EditRestores
