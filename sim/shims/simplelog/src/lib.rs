//! Stand-in for simplelog (logging is never switched on in the simulator).
