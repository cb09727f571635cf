static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
int main(int argc, char **argv) {
  if (argc < 4) {
    fprintf(stderr, "usage: absint module.bc entry out.json [repo-prefix]\n");
    return 2;
  }
  if (argc > 4) repoPrefix = argv[4];
  LLVMContext ctx;
  SMDiagnostic err;
  M = parseIRFile(argv[1], err, ctx);
  if (!M) {
    err.print(argv[0], errs());
    return 2;
  }
  DataLayout dl = M->getDataLayout();
  DL = &dl;
  State st;
  nextGen.assign(2, 0);
  st.objs.resize(2);
  baseState = &st;
  started = std::chrono::steady_clock::now();
  signal(SIGALRM, onAlarm);
  if (getenv("ABSINT_SECONDS")) secondsMore(atof(getenv("ABSINT_SECONDS")));
  if (getenv("ABSINT_STEPS")) maxSteps = strtoull(getenv("ABSINT_STEPS"), nullptr, 10);
  for (auto &g : M->globals()) globalObj(st, &g);
  for (size_t i = 0; i < lazyInit.size(); i++) {
    auto *gv = lazyInit[i];
    u64 h = gids[gv];
    storeConst(st, st.objs[oid(h)].get(), 0, gv->getInitializer());
  }
  for (auto &f : *M) globalObj(st, &f);
  Function *F = M->getFunction(argv[2]);
  if (!F || F->isDeclaration()) {
    fprintf(stderr, "no entry %s\n", argv[2]);
    return 2;
  }
  State cur = st;
  // dynamic initialisers of the modules that define them
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
    if (gc->hasInitializer())
      if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Function *>> cs;
        for (auto &op : ca->operands()) {
          auto *cst = cast<ConstantStruct>(op);
          if (auto *fn = dyn_cast<Function>(cst->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(cst->getOperand(0))->getZExtValue(), fn});
        }
        std::stable_sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return x.first < y.first; });
        for (auto &c : cs) {
          RR r = callFn(std::move(cur), c.second, {}, 0, 0);
          if (!r.ret.has) {
            giveUp("static initialiser does not return");
            break;
          }
          cur = std::move(r.ret.s);
        }
      }
  bool completed = false, thrown = false;
  {
    std::vector<AV> args;
    RR r = callFn(std::move(cur), F, args, 0, 0);
    completed = r.ret.has;
    thrown = r.unw.has;
    if (r.ret.has && r.ret.guard != TS.tTrue && getenv("ABSINT_V")) fprintf(stderr, "partial return guard %s\n", TS.str(r.ret.guard).c_str());
    if (r.unw.has) {
      std::string ty = "?";
      report("abort", "escape", "an exception leaves the analysed program", siteStr(0));
    }
  }
  std::ofstream o(argv[3]);
  o << "{\"completed\":" << (completed ? "true" : "false") << ",\"thrown\":" << (thrown ? "true" : "false") << ",\"steps\":" << steps << ",\"forks\":" << nForks << ",\"joins\":" << nJoins << ",\"widenings\":" << nWiden << ",\"terms\":" << TS.all.size();
  o << ",\n\"reports\":[";
  for (size_t i = 0; i < reps.size(); i++)
    o << (i ? ",\n" : "\n") << "{\"kind\":" << js(reps[i].kind) << ",\"rule\":" << js(reps[i].rule) << ",\"msg\":" << js(reps[i].msg.substr(0, 1500)) << ",\"at\":" << js(reps[i].at) << ",\"stack\":" << js(reps[i].stack) << ",\"scope\":" << js(reps[i].scope) << "}";
  o << "],\n\"ok\":{";
  bool first = true;
  okCount["C24.read"] += nLoad, okCount["C24.write"] += nStore, okCount["C24.branch"] += nBranch;
  for (auto &p : okCount) {
    o << (first ? "" : ",") << js(p.first) << ":" << p.second;
    first = false;
  }
  o << "},\n\"incomplete\":[";
  first = true;
  for (auto &p : incomplete) {
    o << (first ? "" : ",\n") << js(p);
    first = false;
  }
  o << "],\n\"unmodelled\":[";
  first = true;
  for (auto &p : unmodelled) {
    o << (first ? "" : ",") << js(p);
    first = false;
  }
  o << "],\n\"raw_output\":[";
  first = true;
  for (auto &p : rawOutput) {
    o << (first ? "" : ",") << js(p);
    first = false;
  }
  o << "],\n\"functions\":{";
  first = true;
  std::map<std::string, u64> fc;
  for (auto &p : fis)
    if (p.second->repo && p.second->calls) fc[p.second->dem] += p.second->calls;
  for (auto &p : fc) {
    o << (first ? "" : ",\n") << js(p.first) << ":" << p.second;
    first = false;
  }
  o << "}}\n";
  o.close();
  fflush(nullptr);
  _exit(0);
  return 0;
}
