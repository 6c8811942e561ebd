CONSTANT Boundary = {0, 1, 128, 255}
