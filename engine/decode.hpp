// Lowering of LLVM IR to the executor's instruction format.
#pragma once
#include "state.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>

namespace sx {
enum IOp : uint16_t { I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH, I_RESUME, I_BIN, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_TRUNC, I_ZEXT, I_SEXT, I_COPY,
  I_ICMP, I_SELECT, I_CALL, I_EXTRACTV, I_INSERTV, I_LANDING, I_FENCE, I_CMPXCHG, I_RMW, I_NOP, I_FP, I_UNSUP };
struct Edge { uint32_t pc; std::vector<std::pair<int32_t, int32_t>> moves; }; // dst slot <- operand
struct Fn;
typedef void Engine_;
struct Inst {
  IOp op; uint8_t w = 0, w2 = 0; uint16_t sub = 0; bool atomic = false; int32_t dst = -1; int32_t a = 0, b = 0, c = 0; uint64_t imm = 0;
  uint32_t e1 = 0, e2 = 0; // edges / aux index
  Fn* callee = nullptr; std::vector<int32_t> args; std::vector<std::pair<uint64_t, uint64_t>> cases; // switch: value->edge; gep: slot,scale; landing: clause kind, ti
  std::vector<uint8_t> ws; std::vector<uint32_t> offs; // widths of slots (aggregates)
  const llvm::Instruction* src = nullptr;
};
struct Fn {
  std::string name, dname; llvm::Function* f = nullptr; uint64_t addr = 0; bool decoded = false, isDecl = true; int builtin = -1; int intrin = 0;
  uint32_t nslots = 0, nargs = 0; std::vector<uint8_t> argw; std::vector<Inst> code; std::vector<Edge> edges; std::vector<V> consts; uint64_t hits = 0; bool lib = false; bool noinlineMark = false; std::vector<std::vector<uint64_t>> live; /* live slots before each instruction, computed on demand */
};
} // namespace sx
