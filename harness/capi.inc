#include <sys/wait.h>
#include <unistd.h>

// Procedures that exercise the interpreter's C interface, for the component
// specifications about it.  Included by harness.cc.

static SCM *c_list(const std::vector<SCM *> &v) {
  SCM *l = scm_nil();
  for (size_t i = v.size(); i-- > 0;) {
    l = scm_cons(v[i], l);
  }
  return l;
}

// ---------------------------------------------------------------- foreign types
// (%smob-type name size options): options is a sum of 1: compared by its second datum, 2: printed by
// its own function, 4, 8, 16, 32: applicable to 0, 1, 2, 3 arguments
static SCM *t_equalp(SCM *a, SCM *b) {
  return scm_smob_data2(a) == scm_smob_data2(b) ? scm_bool_true() : scm_bool_false();
}
static void t_print(SCM *s, SCM *, scm_print_state *st) {
  printf("<%ld/%ld %s>", (long)(intptr_t)scm_smob_data(s), (long)scm_smob_data2(s), st && st->writingp ? "w" : "d");
}
static SCM *t_apply0(SCM *s) { return c_list({num(0), num((long)(intptr_t)scm_smob_data(s))}); }
static SCM *t_apply1(SCM *s, SCM *a) { return c_list({num(1), num((long)(intptr_t)scm_smob_data(s)), a}); }
static SCM *t_apply2(SCM *s, SCM *a, SCM *b) { return c_list({num(2), num((long)(intptr_t)scm_smob_data(s)), a, b}); }
static SCM *t_apply3(SCM *s, SCM *a, SCM *b, SCM *c) { return c_list({num(3), num((long)(intptr_t)scm_smob_data(s)), a, b, c}); }
static SCM *h_smob_type(SCM *name, SCM *size, SCM *options) {
  long o = (long)options->value;
  auto n = cast<SCM_String>(name);
  long tag = scm_make_smob_type(strndup(n->data, n->len), (size_t)size->value);
  if (o & 1) {
    scm_set_smob_equalp(tag, t_equalp);
  }
  if (o & 2) {
    scm_set_smob_print(tag, t_print);
  }
  if (o & 60) {
    scm_set_smob_apply(tag, o & 4 ? t_apply0 : nullptr, o & 8 ? t_apply1 : nullptr, o & 16 ? t_apply2 : nullptr, o & 32 ? t_apply3 : nullptr);
  }
  return num(tag);
}
// (%smob tag a b c)
static SCM *h_smob(SCM_List *l) {
  std::vector<long> v;
  for (; l; l = l->next) {
    v.push_back((long)l->data->value);
  }
  switch (v.size()) {
  case 2: return scm_make_smob(v[0], (void *)v[1]);
  case 3: return scm_make_smob_with_data2(v[0], v[1], v[2]);
  case 4: return scm_make_smob_with_data3(v[0], v[1], v[2], v[3]);
  default: return scm_make_smob_with_data(v[0], 0);
  }
}
static SCM *h_smob_get(SCM *s) {
  return c_list({num((long)(intptr_t)scm_smob_data(s)), num(scm_smob_data2(s)), num(scm_smob_data3(s)), num(scm_smob_flags(s))});
}
static SCM *h_smob_set(SCM *s, SCM *field, SCM *value) {
  int64_t v = (int64_t)value->value;
  switch ((long)field->value) {
  case 1: scm_set_smob_data(s, (void *)v); break;
  case 2: scm_set_smob_data2(s, v); break;
  case 3: scm_set_smob_data3(s, v); break;
  default: scm_set_smob_flags(s, v); break;
  }
  return scm_none();
}
static SCM *h_smob_is(SCM *s, SCM *tag) {
  return is_smob_type(s, (long)tag->value) ? scm_bool_true() : scm_bool_false();
}
static SCM *h_smob_assert(SCM *s, SCM *tag) {
  scm_assert_smob_type((long)tag->value, s);
  return scm_bool_true();
}

// ---------------------------------------------------------------- calls into the interpreter
// (%c 'op arg ...), from Scheme, or (%C op arg ...) in place of a toplevel form: the program itself calls
// the interface, with the arguments as they stand.  What is noted with (%c 'note v) is shown with the
// result of the latter.
static std::string *g_notes;

static const char *c_name(SCM *sym) { return is_sym(sym) ? cast<SCM_Symbol>(sym)->data : "?"; }
static SCM *c_sym(const char *s) { return scm_from_locale_symbol(s); }
static SCM *c_nth(SCM_List *l, int n) {
  while (l && n--) {
    l = l->next;
  }
  return l ? l->data : nullptr;
}
static std::string c_text(SCM_List *l) {
  std::string s;
  for (; l; l = l->next) {
    s += shown(l->data) + "\n";
  }
  return s;
}
// a value, or (failed key "message") if there is none
static SCM *c_result(SCM *v) {
  if (v) {
    return v;
  }
  const char *key = pscm_get_last_error_key(), *msg = pscm_get_last_error_message();
  return c_list({c_sym("failed"), key ? c_sym(key) : scm_bool_false(), msg ? scm_from_c_string(msg, (int)strlen(msg)) : scm_bool_false()});
}
static SCM *c_rest(SCM_List *l) { return l ? wrap(l) : scm_nil(); }
// a procedure, or what is bound to its name
static SCM *c_proc(SCM *f) { return is_sym(f) ? pscm_variable_ref(pscm_c_lookup(c_name(f))) : f; }
static const char *c_file(SCM_List *l) {
  static int n;
  static char name[32];
  snprintf(name, sizeof name, "c%d.scm", ++n);
  FILE *f = fopen(name, "w");
  std::string s = c_text(l);
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
  return name;
}

// the registered functions: what they do goes by the name they were registered under
template <int K> static SCM *c_fixed0() { return c_list({num(K), num(0)}); }
template <int K> static SCM *c_fixed1(SCM *a) { return c_list({num(K), num(1), a}); }
template <int K> static SCM *c_fixed2(SCM *a, SCM *b) { return c_list({num(K), num(2), a, b}); }
template <int K> static SCM *c_fixed3(SCM *a, SCM *b, SCM *c) { return c_list({num(K), num(3), a, b, c}); }
template <int K> static SCM *c_var(SCM_List *l) { return scm_cons(num(K), scm_cons(num(9), c_rest(l))); }
// with one argument: throws it, calls p with it, evaluates it
static SCM *c_thrower(SCM *a) { return pscm_ithrow(c_sym("thrown"), c_list({a, scm_from_c_string("by a function", 13)}), 1); }
static SCM *c_caller(SCM *a) { return scm_cons(c_sym("called"), scm_call_1(c_proc(c_sym("p")), a)); }
static SCM *c_evaluator(SCM *a) { return c_list({c_sym("evaluated"), c_result(pscm_eval(a))}); }
typedef SCM *(*c_fun)(void);
static c_fun c_slots[][5] = {{(c_fun)c_fixed0<0>, (c_fun)c_fixed1<0>, (c_fun)c_fixed2<0>, (c_fun)c_fixed3<0>, (c_fun)c_var<0>},
                             {(c_fun)c_fixed0<1>, (c_fun)c_fixed1<1>, (c_fun)c_fixed2<1>, (c_fun)c_fixed3<1>, (c_fun)c_var<1>}};

static SCM *c_body(void *data) {
  SCM *t = (SCM *)data;
  return is_proc(t) ? scm_call_0(t) : scm_c_eval_string(shown(t).c_str());
}
static SCM *c_handler(void *data, SCM *key, SCM *args) {
  return scm_cons((SCM *)data, scm_cons(key, args));
}
struct c_definition {
  const char *name;
  SCM *value;
};
static void c_error_handler(const char *message) {
  const char *key = pscm_get_last_error_key(), *m = pscm_get_last_error_message();
  *g_notes += std::string(" !") + (key ? key : "?") + (strcmp(message, m ? m : key ? key : "") ? "*" : "");
}
static SCM *c_module(SCM *name) { return pscm_c_resolve_module(shown(name).c_str()); }

static SCM *c_op(SCM_List *l) {
  std::string op = c_name(l->data);
  SCM_List *args = l->next;
  SCM *a = c_nth(args, 0), *b = c_nth(args, 1), *c = c_nth(args, 2), *d = c_nth(args, 3);
  if (op == "note") {
    *g_notes += " " + shown(a);
    return a;
  }
  if (op == "eval-string") {
    return c_result(pscm_eval_string(shown(a).c_str()));
  }
  if (op == "eval") {
    return c_result(pscm_eval(a));
  }
  if (op == "eval-all") {
    return c_result(scm_c_eval_string(c_text(args).c_str()));
  }
  if (op == "eval-file") {
    return c_result(pscm_eval_file(c_file(args)));
  }
  if (op == "load") {
    return c_result(scm_c_primitive_load(c_file(args)));
  }
  if (op == "parse") {
    return c_result(pscm_parse(cast<SCM_String>(a)->data));
  }
  if (op == "define") {
    return pscm_variable_ref(pscm_c_define(c_name(a), b));
  }
  if (op == "lookup") {
    return pscm_variable_ref(pscm_c_lookup(c_name(a)));
  }
  if (op == "find") {
    return pscm_variable_ref(scm_lookup(a));
  }
  if (op == "gsubr") {
    // name, required, optional, rest, which
    long which = (long)c_nth(args, 4)->value, req = (long)b->value, opt = (long)c->value, rst = (long)d->value;
    pscm_c_define_gsubr(c_name(a), (int)req, (int)opt, (int)rst, c_slots[which][opt || rst ? 4 : req]);
    return scm_none();
  }
  if (op == "worker") {
    std::string which = c_name(b);
    pscm_c_define_gsubr(c_name(a), 1, 0, 0, which == "thrower" ? (c_fun)c_thrower : which == "caller" ? (c_fun)c_caller : (c_fun)c_evaluator);
    return scm_none();
  }
  if (op == "call") {
    SCM *f = c_proc(a);
    return d ? scm_call_3(f, b, c, d) : c ? scm_call_2(f, b, c) : b ? scm_call_1(f, b) : scm_call_0(f);
  }
  if (op == "apply") {
    return scm_apply_0(c_proc(a), b);
  }
  if (op == "catch") {
    return scm_internal_catch(a, c_body, b, c_handler, c_sym("caught"));
  }
  if (op == "throw") {
    return pscm_ithrow(a, c_rest(args->next), 1);
  }
  if (op == "in") {
    return scm_c_call_with_current_module(c_module(a), c_body, b);
  }
  if (op == "module") {
    c_definition def = {c_name(b), c};
    scm_c_define_module(shown(a).c_str(), [](void *data) { auto def = (c_definition *)data; pscm_c_define(def->name, def->value); }, &def);
    return scm_none();
  }
  if (op == "module-with") {
    scm_c_define_module(shown(a).c_str(), [](void *data) { c_body(data); }, b);
    return scm_none();
  }
  if (op == "module-define") {
    return pscm_variable_ref(pscm_c_module_define(c_module(a), c_name(b), c));
  }
  if (op == "module-lookup") {
    return pscm_variable_ref(pscm_c_module_lookup(c_module(a), c_name(b)));
  }
  if (op == "use") {
    pscm_c_use_module(shown(a).c_str());
    return scm_none();
  }
  if (op == "enter") {
    pscm_c_set_current_module(c_module(a));
    return scm_none();
  }
  if (op == "current?") {
    return pscm_c_current_module() == c_module(a) ? scm_bool_true() : scm_bool_false();
  }
  if (op == "text") {
    // to C and back
    size_t len = 0;
    char *p = scm_to_locale_stringn(a, &len);
    SCM *s = scm_from_locale_stringn(p, len);
    memset(p, '#', len);
    free(p);
    return s;
  }
  if (op == "name") {
    return scm_symbol_to_string(scm_from_locale_symboln(cast<SCM_String>(a)->data, cast<SCM_String>(a)->len));
  }
  if (op == "handler") {
    pscm_set_error_handler(is_true(a) ? c_error_handler : nullptr);
    return scm_none();
  }
  if (op == "output") {
    // what the body writes to the output port set meanwhile
    SCM *port = pscm_eval_string("(open-output-string)"), *old = pscm_set_current_output_port(port);
    SCM *v = scm_internal_catch(scm_bool_true(), c_body, a, c_handler, c_sym("caught"));
    pscm_set_current_output_port(old);
    return c_list({v, scm_call_1(c_proc(c_sym("get-output-string")), port)});
  }
  if (op == "message") {
    // an error in the body leads to a message on the error port
    SCM *port = pscm_eval_string("(open-output-string)"), *old = pscm_set_current_error_port(port);
    SCM *v = scm_internal_catch(scm_bool_true(), c_body, a, scm_handle_by_message_noexit, (void *)"harness");
    pscm_set_current_error_port(old);
    SCM *said = scm_call_1(c_proc(c_sym("get-output-string")), port);
    return c_list({v, cast<SCM_String>(said)->len > 0 ? scm_bool_true() : scm_bool_false()});
  }
  if (op == "end") {
    // how a program ends that throws: nothing catches it, or what catches it writes a message
    fflush(nullptr);
    pid_t child = fork();
    if (child == 0) {
      freopen("/dev/null", "w", stderr);
      if (std::string(c_name(a)) == "uncaught") {
        scm_restore_catch_stack(nullptr, 0);
        pscm_ithrow(b, c_rest(args->next->next), 1);
        _exit(98);
      }
      scm_internal_catch(scm_bool_true(), [](void *l) { return pscm_ithrow(((SCM_List *)l)->data, c_rest(((SCM_List *)l)->next), 1); }, args->next, scm_handle_by_message_noexit, nullptr);
      _exit(99);
    }
    int status = 0;
    waitpid(child, &status, 0);
    return num(WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + status);
  }
  return c_sym("no-such-op");
}

static SCM *c_direct_body(void *data) { return c_op((SCM_List *)data); }
// a toplevel form that is done by the program itself; false if it is not one
static bool c_direct(SCM *form) {
  if (!is_pair(form) || !is_sym(cast<SCM_List>(form)->data) || strcmp(c_name(cast<SCM_List>(form)->data), "%C")) {
    return false;
  }
  g_notes->clear();
  SCM *v = scm_c_catch(scm_bool_true(), c_direct_body, cast<SCM_List>(form)->next, c_handler, c_sym("error"));
  std::string s = shown(v);
  put_event(g_notes->empty() ? s : s + " |" + *g_notes);
  return true;
}

static void capi_define() {
  g_notes = new std::string();
  scm_define_vararg_function("%c", c_op);
  scm_define_function("%smob-type", 3, 0, 0, h_smob_type);
  scm_define_vararg_function("%smob", h_smob);
  scm_define_function("%smob-get", 1, 0, 0, h_smob_get);
  scm_define_function("%smob-set!", 3, 0, 0, h_smob_set);
  scm_define_function("%smob-is?", 2, 0, 0, h_smob_is);
  scm_define_function("%smob-assert", 2, 0, 0, h_smob_assert);
}
