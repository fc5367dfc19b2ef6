#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <string>
#include <vector>
struct Val { uint64_t c=0; E s=0; };
struct Leaf { llvm::Type* t; uint64_t off; uint32_t bytes; uint8_t kind; uint8_t w; };  // kind 0 int, 1 ptr, 2 double, 3 float, 4 fp80
struct Unsupported { std::string what; };
struct PathEnd { int status; std::string msg; };
enum Status { ST_OK=0, ST_INFEASIBLE, ST_VIOLATION, ST_UNSUPPORTED, ST_BLOWUP, ST_TIMEOUT, ST_LIMIT, ST_CRASH };
extern const char* StatusName[];
struct Edge { int pc; std::vector<std::pair<int,int>> copies; };       // dst slot <- operand
struct Fun;
struct CallInfo { Fun* direct=nullptr; int callee=0; std::vector<int> args; std::vector<Leaf> argLeaf; std::vector<Leaf> retLeaf; Edge normal, unwind; bool invoke=false; llvm::FunctionType* ft=nullptr; bool vararg=false; };
struct LPad { bool cleanup; std::vector<uint64_t> catches; std::vector<bool> isCatch; int dst; };
struct Inst { uint16_t op; uint8_t w=0, w2=0; int dst=-1; int a=0,b=0,c=0; uint64_t imm=0; void* x=nullptr; llvm::Instruction* I=nullptr; };
typedef void (*Icpt)(CallInfo&, std::vector<Val>&, Val*);
struct Fun { llvm::Function* F; std::string name; bool ext=false, decoded=false; int nslots=0; std::vector<Inst> code; std::vector<Val> consts; void* native=nullptr; Icpt icpt=nullptr; bool noted=false; int nargs=0; };
struct Frame { Fun* f; int pc; size_t base; uint64_t sp; CallInfo* ci; int retDst; };
