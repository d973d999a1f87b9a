#!/usr/bin/env python3
"""mk_overlay.py OUT: writes three Clang 20 headers, extended with the four
Clang 21 names that iwyu.cc / iwyu_ast_util.cc use, under OUT/clang/AST.

Only non-virtual member functions and two trailing CastKind enumerators are
added, so the layout of every class is that of the installed libclang 20.
"""
import os
import sys

SRC = '/usr/lib/llvm-20/include/clang/AST'


def patch(name, *edits):
    with open(os.path.join(SRC, name)) as f:
        text = f.read()
    for old, new in edits:
        if text.count(old) != 1:
            sys.exit('mk_overlay: %s: anchor found %d times: %r' %
                     (name, text.count(old), old))
        text = text.replace(old, new)
    path = os.path.join(sys.argv[1], 'clang/AST', name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


patch('Type.h',
      ('  const Type *getClass() const { return Class; }\n'
       '  CXXRecordDecl *getMostRecentCXXRecordDecl() const;\n',
       '  const Type *getClass() const { return Class; }\n'
       '  NestedNameSpecifier *getQualifier() const;  // shim\n'
       '  CXXRecordDecl *getMostRecentCXXRecordDecl() const;\n'),
      ('  NestedNameSpecifier *getQualifier() const { return NNS; }\n'
       '  const IdentifierInfo *getIdentifier() const { return Name; }\n'
       '\n'
       '  ArrayRef<TemplateArgument> template_arguments() const {\n'
       '    return {reinterpret_cast<const TemplateArgument *>(this + 1),\n'
       '            DependentTemplateSpecializationTypeBits.NumArgs};\n',
       '  NestedNameSpecifier *getQualifier() const { return NNS; }\n'
       '  struct ShimDependentTemplateName {  // shim\n'
       '    NestedNameSpecifier *NNS;\n'
       '    const IdentifierInfo *Name;\n'
       '    NestedNameSpecifier *getQualifier() const { return NNS; }\n'
       '    const IdentifierInfo *getName() const { return Name; }\n'
       '  };\n'
       '  ShimDependentTemplateName getDependentTemplateName() const {\n'
       '    return {NNS, Name};\n'
       '  }\n'
       '  const IdentifierInfo *getIdentifier() const { return Name; }\n'
       '\n'
       '  ArrayRef<TemplateArgument> template_arguments() const {\n'
       '    return {reinterpret_cast<const TemplateArgument *>(this + 1),\n'
       '            DependentTemplateSpecializationTypeBits.NumArgs};\n'))
patch('NestedNameSpecifier.h',
      ('class NestedNameSpecifier : public llvm::FoldingSetNode {\n',
       'class NestedNameSpecifier : public llvm::FoldingSetNode {\n'
       '  friend class MemberPointerType;  // shim\n'))
patch('OperationKinds.def',
      ('//===- Binary Operations  -----',
       'CAST_OPERATION(HLSLElementwiseCast)  // shim\n'
       'CAST_OPERATION(HLSLAggregateSplatCast)  // shim\n\n'
       '//===- Binary Operations  -----'))
