RACE = {
    "C01": ("schedules of client threads, switched, stalled and shown older stores at any memory access",
            "Every run is a process in which no trait has been used; 2-5 threads decode and encode under a scheduler that owns every instrumented memory access. Happens-before race detection, sequential results as the oracle, deadlock and progress checks. Sampled schedules, not all of them; std's precompiled code is not instrumented."),
}
