CONSTANT Boundary = {0, 1, 255}
