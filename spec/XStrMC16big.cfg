SPECIFICATION Spec
CONSTANTS B = 5
          N = 8
          From = 16
          To = 8
          Units = {65, 233, 8364, 55357, 56832}
INVARIANTS Prefix Right Back
PROPERTY Ends
