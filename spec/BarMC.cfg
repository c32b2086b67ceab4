SPECIFICATION Spec
INVARIANTS Ascending NeverPast Covered Occupied Width Agrees Back Emitted
CHECK_DEADLOCK FALSE
