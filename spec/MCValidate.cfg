SPECIFICATION Spec
INVARIANTS BaseSound OrderFree CutSound
