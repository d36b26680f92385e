#ifndef TS_API_H
#define TS_API_H
struct TsApi {
  void *(*create)(void); void (*free)(void *); size_t (*length)(void *);
  int (*add)(void *, const char *, const char *, const char *, const char *);
  int (*add_en)(void *, const char *, const char *, const char *);
  int (*add_uri)(void *, const char *, const char *, const char *);
  int (*add_triples)(void *, const Triple *, size_t);
  int (*remove)(void *, const char *, const char *, const char *, const char *);
  void (*clear)(void *);
  const Triple *(*find_first)(const void *, const char *, const char *, const char *, const char *);
  void (*init_state)(void *, TripleState *); void (*deinit_state)(TripleState *); void (*reset_state)(TripleState *);
  const Triple *(*next)(TripleState *); const Triple *(*poll)(TripleState *);
  const Triple *(*find)(TripleState *, const char *, const char *, const char *, const char *);
  const char *(*value)(void *, const char *, const char *, const char *, const char *, const char *, int);
  int (*remove_by_id)(void *, const char *); const Triple *(*get)(const void *, const char *);
};
extern const struct TsApi ts_builtin;
#endif
