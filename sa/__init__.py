"""Static analysis of z-quantum-core: program model, value-flow engine and rules."""
