SPECIFICATION Spec
CONSTANT q = 12289
