"""yuflow: static analysis of in4lio/yupp (reads /repo's sources with `ast`; imports and runs nothing of it)."""
