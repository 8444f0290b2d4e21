"""Reasons for the properties that are not claimed."""
NA = {
    "N01": "the behaviour is that of child processes, pipes and temporary files; the executed code ends in system calls on another process whose behaviour cannot be made a symbolic input here",
    "N02": "the deciding code is C/C++ (CaDiCaL, Kissat, MiniSat, Glucose) linked as native libraries of tens of thousands of lines with unbounded search loops; it is not part of the encodable Rust IR",
    "N03": "the wrappers are only reachable through the CPython runtime (PyO3), which cannot be executed symbolically here; the wrapped Rust code is covered by the E properties",
    "N04": "the content passes through (de)compressors whose loops and tables over symbolic bytes are beyond the reach of symbolic execution; the uncompressed readers and writers are covered by the F properties",
}
