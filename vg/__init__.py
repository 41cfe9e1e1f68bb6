"""Value-graph static analyser for solarspatialtools (stdlib only, never imports the library)."""
