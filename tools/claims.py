# claims beyond the first batch (read by tools/manifest.py)
for _i in ("C15","C16","C17","C18","C23","C24","C25","C26","C28","C29","C31"):
    C[_i] = ""
HOOKS = ["db88085"]
C["C27"] = "Decided for all bit patterns; the standard library functions sqrt, sin, cos, acos, atan and atan2 are uninterpreted. Counterexamples are replayed natively. "
C["C26"] = "The order is also decided bit-precisely for all f32 and f64 values by Kani. "
TECH["C27"] = "bounded model checking of the f64 and f32 code with Kani (CBMC, bit-precise SAT), all bit patterns"
TECH["C26"] = T + KANI

C["C19"] = "All polygons with 3 and 4 vertices (thorough: 5), listed polygons with up to 8 vertices one of which is symbolic, generated polygons with up to 12 (16) vertices one of which moves along a line. "
C["C20"] = "All simple polygons with 3 and 4 vertices (thorough: 5), listed polygons with up to 8 vertices one of which is symbolic, both orientations, generated polygons with up to 12 (16) vertices one of which moves along a line. "
C["C21"] = "Two segments (thorough: three) with symbolic ends; listed sets of 2 to 5 segments plus a symbolic one. "
C["C05"] = "All simple polygons with 3 and 4 vertices (thorough: 5) and any point; listed and generated polygons with up to 12 (20) vertices and any point. "
C["C16"] = "Up to 4 points anywhere (thorough: 5); listed and generated sets of up to 14 (25) points, one of which is anywhere or moves along a line. "
C["C18"] = "All simple polygons with 3 to 5 vertices; listed and generated ones with up to 14 vertices, one of which is anywhere or moves along a line. "
C["C22"] = "Listed circles, arcs and segments plus a symbolic circle, a symbolic segment of listed direction, or a circle or arc moving along a line. "
C["C30"] = "The wrapper sources are compiled natively, at the symbolic number type and at f64, after dropping the wasm_bindgen attributes (tools/gen.py); the generated JavaScript glue is outside. "
