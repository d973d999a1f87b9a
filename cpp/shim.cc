// Definition of the one Clang 21 function that mk_overlay.py only declares.
#include <map>

#include "clang/AST/NestedNameSpecifier.h"
#include "clang/AST/Type.h"

namespace clang {
NestedNameSpecifier *MemberPointerType::getQualifier() const {
  // A type-specifier NNS without prefix, one per class type, never freed.
  static std::map<const Type *, NestedNameSpecifier *> cache;
  NestedNameSpecifier *&nns = cache[Class];
  if (!nns) {
    nns = new NestedNameSpecifier();
    nns->Prefix.setInt(NestedNameSpecifier::StoredTypeSpec);
    nns->Specifier = const_cast<Type *>(Class);
  }
  return nns;
}
}  // namespace clang
