import kanirun
kanirun.main([f"{t}_{c}" for t in ("f64", "f32") for c in ("order", "antisymmetry")], ["Point2::cmp"])
