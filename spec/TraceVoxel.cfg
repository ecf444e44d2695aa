SPECIFICATION Spec
CONSTANT Sub = 8
