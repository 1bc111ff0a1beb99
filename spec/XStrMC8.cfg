SPECIFICATION Spec
CONSTANTS B = 2
          N = 5
          From = 8
          To = 16
          Units = {65, 128, 169, 195, 226, 240, 159, 192, 255}
INVARIANTS Prefix Right Back
PROPERTY Ends
