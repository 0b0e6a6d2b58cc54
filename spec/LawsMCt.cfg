SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 STEPS = 5
 WINDS = {1, 40000, 100000, 130000, 180000, 230000, 260000, 280000, 300000, 320000, 340000, 350000}
INVARIANTS Arithmetic Rows Damp Enough Inverse Higher Sheltered Saltier Thick2 Thinnest Volatile
PROPERTIES Grows Wets Shrinks
