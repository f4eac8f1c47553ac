import kanirun
kanirun.main([f"{t}_{c}" for t in ("f64", "f32") for c in ("equality", "symmetry", "reflexivity", "absolute", "constants", "conversion", "sqrt", "sin", "cos", "acos", "atan", "atan2")], ["equals", "abs", "sqrt", "sin", "cos", "acos", "atan", "atan2", "default", "zero", "default_eps", "from_f64", "pi"])
