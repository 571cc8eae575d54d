SPECIFICATION Spec
CONSTANTS Tensors = {1, 2, 3}
          Probs = {0, 1, 2}
          MaxN = 3
          MaxSteps = 3
          Mode = "right"
INVARIANT Tensor
INVARIANT Probability
INVARIANT Converted
INVARIANT Collapsed
INVARIANT Maximal
