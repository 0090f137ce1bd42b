// Instantiates the operator templates of the repository so that their bodies appear in the exported AST.
#include "simfil/operator.h"
namespace simfil {
template struct UnaryOperatorDispatcher<OperatorNegate>;
template struct UnaryOperatorDispatcher<OperatorBool>;
template struct UnaryOperatorDispatcher<OperatorNot>;
template struct UnaryOperatorDispatcher<OperatorBitInv>;
template struct UnaryOperatorDispatcher<OperatorLen>;
template struct UnaryOperatorDispatcher<OperatorTypeof>;
template struct UnaryOperatorDispatcher<OperatorAsInt>;
template struct UnaryOperatorDispatcher<OperatorAsFloat>;
template struct UnaryOperatorDispatcher<OperatorAsString>;
template struct BinaryOperatorDispatcher<OperatorAdd>;
template struct BinaryOperatorDispatcher<OperatorSub>;
template struct BinaryOperatorDispatcher<OperatorMul>;
template struct BinaryOperatorDispatcher<OperatorDiv>;
template struct BinaryOperatorDispatcher<OperatorMod>;
template struct BinaryOperatorDispatcher<OperatorEq>;
template struct BinaryOperatorDispatcher<OperatorNeq>;
template struct BinaryOperatorDispatcher<OperatorLt>;
template struct BinaryOperatorDispatcher<OperatorLtEq>;
template struct BinaryOperatorDispatcher<OperatorGt>;
template struct BinaryOperatorDispatcher<OperatorGtEq>;
template struct BinaryOperatorDispatcher<OperatorSubscript>;
template struct BinaryOperatorDispatcher<OperatorBitAnd>;
template struct BinaryOperatorDispatcher<OperatorBitOr>;
template struct BinaryOperatorDispatcher<OperatorBitXor>;
template struct BinaryOperatorDispatcher<OperatorShl>;
template struct BinaryOperatorDispatcher<OperatorShr>;
}
