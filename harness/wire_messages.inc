#define VP_WIRE_MESSAGES(X) X(Scalars) X(Repeats) X(Leaf) X(Outer) X(Mid) X(Maps) X(Numbers) X(Node) X(Nothing) X(Kinds) X(Others)
#define VP_WIRE_NESTED(X) X(Kinds::Deep)
