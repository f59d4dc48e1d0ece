/* The objects and functions of CPython that _persistent.c may use, with
 * symbolic results, and the rules it has to follow, as assertions.
 * Linked with the current /repo/durus/_persistent.c by goto-cc. */
#include "Python.h"
#include "structmember.h"
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>

#ifndef N
#define N 16
#endif
#define IMPLIES(a, b) (!(a) || (b))

extern PyObject *PyInit__persistent(void);

int nondet_int(void);
long nondet_long(void);
unsigned char nondet_uchar(void);
_Bool nondet_bool(void);

/* ---------------------------------------------------------------- types */

PyTypeObject PyUnicode_Type = {.tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS};
PyTypeObject PyLong_Type = {.tp_flags = Py_TPFLAGS_LONG_SUBCLASS};
PyTypeObject PyBytes_Type = {.tp_flags = Py_TPFLAGS_BYTES_SUBCLASS};
PyTypeObject PyTuple_Type = {.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS};
PyTypeObject PyType_Type = {.tp_flags = Py_TPFLAGS_TYPE_SUBCLASS};
PyTypeObject PyBaseObject_Type;
PyObject _Py_NoneStruct = {.ob_refcnt = 1000000, .ob_type = &PyBaseObject_Type};
struct _longobject _Py_TrueStruct = {.ob_base = {.ob_refcnt = 1000000}};
struct _longobject _Py_FalseStruct = {.ob_base = {.ob_refcnt = 1000000}};
static PyObject the_type_error, the_value_error, the_attribute_error,
    the_system_error, the_memory_error;
PyObject *PyExc_TypeError = &the_type_error;
PyObject *PyExc_ValueError = &the_value_error;
PyObject *PyExc_AttributeError = &the_attribute_error;
PyObject *PyExc_SystemError = &the_system_error;
PyObject *PyExc_MemoryError = &the_memory_error;

/* --------------------------------------------------------------- errors */

static PyObject *pending;       /* the current exception */

static void raise_(PyObject *exc) { pending = exc; }
void PyErr_SetString(PyObject *exc, const char *msg) { pending = exc; }
void PyErr_SetObject(PyObject *exc, PyObject *v) { pending = exc; }
PyObject *PyErr_Format(PyObject *exc, const char *f, ...)
{ pending = exc; return NULL; }
void PyErr_Clear(void) { pending = NULL; }
PyObject *PyErr_Occurred(void) { return pending; }
int PyErr_ExceptionMatches(PyObject *exc) { return pending == exc; }
PyObject *PyErr_NoMemory(void) { pending = PyExc_MemoryError; return NULL; }

/* --------------------------------------------------------------- events */

enum { LOAD = 1, CHANGE, ACCESS, GET, SET, CALL, OTHER };
#define MAXEV 8
static int nev;
static int ev[MAXEV];
static PyObject *ev_obj[MAXEV], *ev_a[MAXEV], *ev_b[MAXEV];
static int ev_ok[MAXEV];
static int utf8_failed;

static int event(int kind, PyObject *obj, PyObject *a, PyObject *b, int ok)
{
    __CPROVER_assert(pending == NULL, "called with an exception pending");
    __CPROVER_assert(nev < MAXEV, "too many calls");
    ev[nev] = kind;
    ev_obj[nev] = obj;
    ev_a[nev] = a;
    ev_b[nev] = b;
    ev_ok[nev] = ok;
    nev++;
    return ok;
}

/* what methods return */
static PyObject result = {.ob_refcnt = 0, .ob_type = &PyBaseObject_Type};
static long results;            /* references handed out */

static PyObject *new_result(void)
{
    result.ob_refcnt++;
    results++;
    return &result;
}

#define RESULT0 50

/* ------------------------------------------------- the objects in play */

static PyTypeObject *PB, *CB;   /* the types that the module defines */
static PyMethodDef *methods;
static PyObject *self_, *conn_;

static Py_ssize_t offset(PyTypeObject *t, const char *name, int type)
{
    PyMemberDef *m = t->tp_members;
    for (; m->name != NULL; m++)
        if (strcmp(m->name, name) == 0) {
            __CPROVER_assert(m->type == type, "type of a member");
            __CPROVER_assert(!(m->flags & READONLY), "member is read-only");
            return m->offset;
        }
    __CPROVER_assert(0, "a member is missing");
    return 0;
}

/* constant once the module is set up */
static Py_ssize_t o_status, o_serial, o_connection, o_oid, o_transaction;
#define AT(o, off) (*(PyObject **)((char *)(o) + (off)))
#define STATUS(o) (*(int *)((char *)(o) + o_status))

/* --------------------------------------------------------------- strings */

static unsigned char in_name[N + 1];
static int in_len, in_kind, in_delete;

PyObject *make_str(int len)
{
    /* the layout of a compact string */
    char *p = malloc(sizeof(PyASCIIObject) + len + 1);
    PyASCIIObject *a = (PyASCIIObject *)p;
    a->ob_base.ob_refcnt = 10;
    a->ob_base.ob_type = &PyUnicode_Type;
    a->length = len;
    a->hash = -1;
    a->state.interned = 0;
    a->state.kind = 1;
    a->state.compact = 1;
    a->state.ascii = 1;
    char *s = p + sizeof(PyASCIIObject);
    for (int i = 0; i < N; i++)
        if (i < len)
            s[i] = (char)in_name[i];
    s[len] = 0;
    return (PyObject *)p;
}

const char *PyUnicode_AsUTF8AndSize(PyObject *o, Py_ssize_t *size)
{
    __CPROVER_assert(PyUnicode_Check(o), "not a string");
    __CPROVER_assert(pending == NULL, "called with an exception pending");
    if (utf8_failed) {
        /* a surrogate, or no memory */
        raise_(PyExc_ValueError);
        if (size)
            *size = -1;
        return NULL;
    }
    if (size)
        *size = ((PyASCIIObject *)o)->length;
    return (char *)o + sizeof(PyASCIIObject);
}

const char *PyUnicode_AsUTF8(PyObject *o)
{ return PyUnicode_AsUTF8AndSize(o, NULL); }

int PyUnicode_CompareWithASCIIString(PyObject *o, const char *s)
{
    Py_ssize_t n = strlen(s), k = ((PyASCIIObject *)o)->length;
    const char *p = (char *)o + sizeof(PyASCIIObject);
    for (Py_ssize_t i = 0; i < N; i++) {
        if (i >= n || i >= k)
            break;
        if (p[i] != s[i])
            return (unsigned char)p[i] < (unsigned char)s[i] ? -1 : 1;
    }
    return n == k ? 0 : k < n ? -1 : 1;
}

int PyUnicode_EqualToUTF8(PyObject *o, const char *s)
{ return PyUnicode_CompareWithASCIIString(o, s) == 0; }

Py_ssize_t PyUnicode_GetLength(PyObject *o)
{ return ((PyASCIIObject *)o)->length; }

Py_UCS4 PyUnicode_ReadChar(PyObject *o, Py_ssize_t i)
{
    __CPROVER_assert(i >= 0 && i < ((PyASCIIObject *)o)->length,
                     "index of a character");
    return (unsigned char)((char *)o + sizeof(PyASCIIObject))[i];
}

Py_ssize_t PyUnicode_Tailmatch(PyObject *o, PyObject *sub, Py_ssize_t a,
                               Py_ssize_t b, int dir)
{ __CPROVER_assert(0, "not modelled: PyUnicode_Tailmatch"); return 0; }

/* --------------------------------------------------------------- methods */

static PyObject *method(PyObject *obj, const char *name, PyObject *arg)
{
    int ok = nondet_bool();
    if (obj == self_ && strcmp(name, "_p_load_state") == 0) {
        event(LOAD, obj, arg, NULL, ok);
        if (ok)
            STATUS(self_) = 0;
    } else if (obj == self_ && strcmp(name, "_p_note_change") == 0) {
        event(CHANGE, obj, arg, NULL, ok);
        if (ok)
            STATUS(self_) = 1;
    } else if (obj == conn_ && strcmp(name, "note_access") == 0) {
        event(ACCESS, obj, arg, NULL, ok);
        if (ok && arg == self_)
            AT(self_, o_serial) = AT(conn_, o_transaction);
    } else
        event(OTHER, obj, arg, NULL, ok);
    if (!ok) {
        raise_(PyExc_ValueError);
        return NULL;
    }
    return new_result();
}

PyObject *PyObject_CallMethod(PyObject *obj, const char *name,
                              const char *format, ...)
{
    PyObject *arg = NULL;
    if (format != NULL && *format) {
        va_list va;
        va_start(va, format);
        arg = va_arg(va, PyObject *);
        va_end(va);
    }
    return method(obj, name, arg);
}

#define UTF8(s) ((char *)(s) + sizeof(PyASCIIObject))

PyObject *PyObject_CallMethodObjArgs(PyObject *obj, PyObject *name, ...)
{
    PyObject *arg;
    va_list va;
    va_start(va, name);
    arg = va_arg(va, PyObject *);
    va_end(va);
    return method(obj, UTF8(name), arg);
}

PyObject *PyObject_VectorcallMethod(PyObject *name, PyObject *const *args,
                                    size_t n, PyObject *kw)
{
    return method(args[0], UTF8(name),
                  PyVectorcall_NARGS(n) > 1 ? args[1] : NULL);
}

PyObject *PyUnicode_FromString(const char *s)
{
    size_t n = strlen(s);
    char *p = malloc(sizeof(PyASCIIObject) + n + 1);
    PyASCIIObject *a = (PyASCIIObject *)p;
    a->ob_base.ob_refcnt = 1;
    a->ob_base.ob_type = &PyUnicode_Type;
    a->length = n;
    strcpy(p + sizeof(PyASCIIObject), s);
    return (PyObject *)p;
}

PyObject *PyUnicode_InternFromString(const char *s)
{ return PyUnicode_FromString(s); }

PyObject *PyObject_GenericGetAttr(PyObject *o, PyObject *name)
{
    if (!event(GET, o, name, NULL, nondet_bool())) {
        raise_(PyExc_AttributeError);
        return NULL;
    }
    return new_result();
}

int PyObject_GenericSetAttr(PyObject *o, PyObject *name, PyObject *v)
{
    if (!event(SET, o, name, v, nondet_bool())) {
        raise_(PyExc_AttributeError);
        return -1;
    }
    return 0;
}

/* bound methods: looking one up does not fail here */
static struct bound { PyObject head; PyObject *obj; const char *name; }
    bound_[4];
static int bounds_made;

static PyObject *bind(PyObject *obj, const char *name)
{
    struct bound *b;
    __CPROVER_assert(pending == NULL, "called with an exception pending");
    __CPROVER_assert(bounds_made < 4, "too many calls");
    b = &bound_[bounds_made++];
    b->head.ob_refcnt = 1000;
    b->head.ob_type = &PyBaseObject_Type;
    b->obj = obj;
    b->name = name;
    return &b->head;
}

PyObject *PyObject_GetAttrString(PyObject *o, const char *name)
{ return bind(o, name); }
PyObject *PyObject_GetAttr(PyObject *o, PyObject *name)
{ return bind(o, UTF8(name)); }

static PyObject *call(PyObject *f, PyObject *arg)
{
    for (int i = 0; i < 4; i++)
        if (i < bounds_made && f == &bound_[i].head)
            return method(bound_[i].obj, bound_[i].name, arg);
    if (!event(CALL, f, arg, NULL, nondet_bool())) {
        raise_(PyExc_ValueError);
        return NULL;
    }
    return new_result();
}

PyObject *PyObject_CallFunction(PyObject *f, const char *format, ...)
{
    PyObject *arg = NULL;
    if (format != NULL && *format) {
        va_list va;
        va_start(va, format);
        arg = va_arg(va, PyObject *);
        va_end(va);
    }
    return call(f, arg);
}

PyObject *PyObject_CallNoArgs(PyObject *f)
{ return call(f, NULL); }

PyObject *PyObject_CallOneArg(PyObject *f, PyObject *arg)
{ return call(f, arg); }

PyObject *PyObject_Vectorcall(PyObject *f, PyObject *const *args, size_t n,
                              PyObject *kw)
{ return call(f, PyVectorcall_NARGS(n) > 0 ? args[0] : NULL); }

PyObject *PyObject_CallFunctionObjArgs(PyObject *f, ...)
{
    va_list va;
    va_start(va, f);
    PyObject *arg = va_arg(va, PyObject *);
    va_end(va);
    return call(f, arg);
}

static int in_instance;

int PyObject_IsInstance(PyObject *o, PyObject *t)
{
    __CPROVER_assert(t == (PyObject *)PB, "instance of what");
    if (in_instance < 0)
        raise_(PyExc_ValueError);
    return in_instance;
}

/* PyObject_TypeCheck() is inline and uses this */
int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b)
{ return in_instance > 0; }

/* a tuple of arguments */
static PyObject *args_[3];
static int nargs;
static PyObject the_args = {.ob_refcnt = 10, .ob_type = &PyTuple_Type};

int PyArg_UnpackTuple(PyObject *args, const char *name, Py_ssize_t min,
                      Py_ssize_t max, ...)
{
    va_list va;
    __CPROVER_assert(args == &the_args, "arguments");
    if (nargs < min || nargs > max) {
        raise_(PyExc_TypeError);
        return 0;
    }
    va_start(va, max);
    for (int i = 0; i < 3; i++)
        if (i < nargs)
            *va_arg(va, PyObject **) = args_[i];
    va_end(va);
    return 1;
}

/* ---------------------------------------------------------------- memory */

static int freed, untracked, dealloced;
static PyObject *freed_obj;

static long ints_made, int_value[4];
static PyObject *int_obj[4];

PyObject *PyLong_FromLong(long v)
{
    if (nondet_bool()) {
        raise_(PyExc_MemoryError);
        return NULL;
    }
    PyObject *o = malloc(sizeof(PyObject) + 8);
    o->ob_refcnt = 1;
    o->ob_type = &PyLong_Type;
    __CPROVER_assume(ints_made < 4);
    int_obj[ints_made] = o;
    int_value[ints_made++] = v;
    return o;
}

static PyObject *made;
static PyTypeObject *made_type;
static int alloc_failed;

static PyObject *allocate(PyTypeObject *t)
{
    __CPROVER_assert(t == PB || t == CB, "type to allocate");
    if (nondet_bool()) {
        alloc_failed = 1;
        raise_(PyExc_MemoryError);
        return NULL;
    }
    made = calloc(1, t->tp_basicsize);
    made->ob_refcnt = 1;
    made->ob_type = t;
    made_type = t;
    return made;
}

PyObject *PyType_GenericNew(PyTypeObject *t, PyObject *a, PyObject *k)
{ return allocate(t); }
PyObject *PyType_GenericAlloc(PyTypeObject *t, Py_ssize_t n)
{ return allocate(t); }

void PyObject_GC_UnTrack(void *o) { untracked++; }
void PyObject_GC_Track(void *o) {}
void PyObject_GC_Del(void *o) { freed++; freed_obj = o; }
void PyObject_Free(void *o) { freed++; freed_obj = o; }
void _Py_Dealloc(PyObject *o) { dealloced++; }
int _PyTrash_cond(PyObject *o, destructor d) { return 0; }
int _PyTrash_begin(PyThreadState *t, PyObject *o) { return 0; }
void _PyTrash_end(PyThreadState *t) {}
PyThreadState *_PyThreadState_UncheckedGet(void) { return NULL; }

/* ---------------------------------------------------------------- module */

static PyObject the_module = {.ob_refcnt = 10};
static PyObject the_dict = {.ob_refcnt = 10};

PyObject *PyModule_Create2(PyModuleDef *d, int v)
{
    methods = d->m_methods;
    return &the_module;
}
PyObject *PyModule_GetDict(PyObject *m) { return &the_dict; }
int PyType_Ready(PyTypeObject *t)
{
    /* what is inherited from object */
    if (t->tp_getattro == NULL)
        t->tp_getattro = PyObject_GenericGetAttr;
    if (t->tp_setattro == NULL)
        t->tp_setattro = PyObject_GenericSetAttr;
    return 0;
}
static void add(const char *name, PyObject *v)
{
    if (strcmp(name, "PersistentBase") == 0)
        PB = (PyTypeObject *)v;
    if (strcmp(name, "ConnectionBase") == 0)
        CB = (PyTypeObject *)v;
}
int PyDict_SetItemString(PyObject *d, const char *name, PyObject *v)
{ add(name, v); return 0; }
int PyModule_AddObject(PyObject *m, const char *name, PyObject *v)
{ add(name, v); return 0; }
int PyModule_AddObjectRef(PyObject *m, const char *name, PyObject *v)
{ add(name, v); return 0; }
int PyModule_AddType(PyObject *m, PyTypeObject *t)
{
    PyType_Ready(t);
    const char *p = strrchr(t->tp_name, '.');
    add(p ? p + 1 : t->tp_name, (PyObject *)t);
    return 0;
}
int PyModule_AddIntConstant(PyObject *m, const char *n, long v) { return 0; }

/* ------------------------------------------------------------- harnesses */

static void setup(void)
{
    PyObject *m = PyInit__persistent();
    __CPROVER_assert(m != NULL && PB != NULL && CB != NULL && methods != NULL,
                     "the module");
    o_status = offset(PB, "_p_status", T_INT);
    o_serial = offset(PB, "_p_serial", T_OBJECT_EX);
    o_connection = offset(PB, "_p_connection", T_OBJECT_EX);
    o_oid = offset(PB, "_p_oid", T_OBJECT_EX);
    o_transaction = offset(CB, "transaction_serial", T_OBJECT_EX);
}

static PyObject *plain(void)
{
    PyObject *o = malloc(sizeof(PyObject) + 8);
    o->ob_refcnt = 10;
    o->ob_type = &PyLong_Type;
    return o;
}

static int in_status, in_connected, in_current;
static PyObject *serial_, *oid_, *transaction_;

/* an object in any state */
static void any_object(void)
{
    self_ = calloc(1, PB->tp_basicsize);
    self_->ob_refcnt = 10;
    self_->ob_type = PB;
    conn_ = calloc(1, CB->tp_basicsize);
    conn_->ob_refcnt = 10;
    conn_->ob_type = CB;
    transaction_ = plain();
    AT(conn_, o_transaction) = transaction_;
    in_status = nondet_int();
    __CPROVER_assume(in_status >= -1 && in_status <= 1);
    in_connected = nondet_bool();
    in_current = nondet_bool();
    /* only a stored object can be a ghost */
    __CPROVER_assume(IMPLIES(!in_connected, in_status == 1));
    STATUS(self_) = in_status;
    serial_ = in_current ? transaction_ : plain();
    AT(self_, o_serial) = serial_;
    oid_ = plain();
    AT(self_, o_oid) = oid_;
    AT(self_, o_connection) = in_connected ? conn_ : Py_None;
}

static PyObject *any_name(void)
{
    in_len = nondet_int();
    __CPROVER_assume(in_len >= 0 && in_len <= N);
    for (int i = 0; i < N; i++)
        in_name[i] = nondet_uchar();
    /* UTF-8 of anything below U+0800, NUL included */
    for (int i = 0; i < N; i++) {
        unsigned char b = in_name[i], c = i ? in_name[i - 1] : 0;
        int more = c >= 0xC2 && c <= 0xDF;
        __CPROVER_assume(i >= in_len ||
                         (more ? b >= 0x80 && b <= 0xBF
                          : b < 0x80 || (b >= 0xC2 && b <= 0xDF &&
                                         i + 1 < in_len)));
    }
    PyObject *o = make_str(in_len);
    in_kind = nondet_int();
    __CPROVER_assume(in_kind >= 0 && in_kind <= 2);
    utf8_failed = in_kind == 1;
    if (in_kind == 2)
        o->ob_type = &PyLong_Type;
    return o;
}

static int is(const char *s, int n)
{
    if (in_len != n)
        return 0;
    for (int i = 0; i < n; i++)
        if (in_name[i] != (unsigned char)s[i])
            return 0;
    return 1;
}

/* the documented rule */
static int triggers(void)
{
    if (in_len >= 3 && in_name[0] == '_' && in_name[1] == 'p' &&
        in_name[2] == '_')
        return 0;
    return !is("__repr__", 8) && !is("__class__", 9) &&
        !is("__setstate__", 12);
}

static void no_leak(void)
{
    __CPROVER_assert(self_->ob_refcnt == 10, "references to the object");
    __CPROVER_assert(conn_->ob_refcnt == 10, "references to the connection");
    __CPROVER_assert(AT(self_, o_oid) == oid_ && oid_->ob_refcnt == 10 &&
                     serial_->ob_refcnt == 10 &&
                     transaction_->ob_refcnt == 10, "references");
    __CPROVER_assert(dealloced == 0, "something is freed");
}

#ifdef VACUITY
#define END() __CPROVER_assert(0, "reached")
#else
#define END()
#endif

void getattr_(void)
{
    setup();
    any_object();
    PyObject *name = any_name();
    result.ob_refcnt = RESULT0;
    PyObject *r = PB->tp_getattro(self_, name);
    if (in_kind == 2) {
        __CPROVER_assert(r == NULL && pending == PyExc_TypeError && nev == 0,
                         "a name that is no string");
    } else if (in_kind == 1 && r == NULL && nev == 0) {
        __CPROVER_assert(pending != NULL, "no error is set");
    } else {
        int i = 0, failed = 0;
        if (triggers()) {
            if (in_status == -1) {
                __CPROVER_assert(i < nev && ev[i] == LOAD &&
                                 ev_obj[i] == self_,
                                 "the state of a ghost is loaded");
                failed = !ev_ok[i++];
            }
            if (!failed && in_connected && !in_current) {
                __CPROVER_assert(i < nev && ev[i] == ACCESS &&
                                 ev_obj[i] == conn_ && ev_a[i] == self_,
                                 "the access is noted");
                failed = !ev_ok[i++];
            }
        }
        if (!failed) {
            __CPROVER_assert(i < nev && ev[i] == GET && ev_obj[i] == self_ &&
                             ev_a[i] == name, "the attribute is looked up");
            failed = !ev_ok[i++];
        }
        __CPROVER_assert(nev == i, "nothing else is called");
        __CPROVER_assert(failed == (r == NULL), "failure is reported");
        __CPROVER_assert(failed == (pending != NULL), "the error is kept");
        if (r != NULL)
            __CPROVER_assert(r == &result, "the value");
        __CPROVER_assert(result.ob_refcnt == RESULT0 + (r != NULL),
                         "results of methods are released");
    }
    no_leak();
    __CPROVER_assert(name->ob_refcnt == 10, "references to the name");
    END();
}

void setattr_(void)
{
    setup();
    any_object();
    PyObject *name = any_name();
    in_delete = nondet_bool();
    PyObject *value = in_delete ? NULL : plain();
    result.ob_refcnt = RESULT0;
    int r = PB->tp_setattro(self_, name, value);
    if (in_kind == 2) {
        __CPROVER_assert(r == -1 && pending == PyExc_TypeError && nev == 0,
                         "a name that is no string");
    } else if (in_kind == 1 && r == -1 && nev == 0) {
        __CPROVER_assert(pending != NULL, "no error is set");
    } else {
        int i = 0, failed = 0;
        if (triggers()) {
            /* (nothing happens in a second call) */
            if (in_status != 1 || (i < nev && ev[i] == CHANGE)) {
                __CPROVER_assert(i < nev && ev[i] == CHANGE &&
                                 ev_obj[i] == self_,
                                 "the change is noted");
                failed = !ev_ok[i++];
            }
        }
        if (!failed) {
            __CPROVER_assert(i < nev && ev[i] == SET && ev_obj[i] == self_ &&
                             ev_a[i] == name && ev_b[i] == value,
                             "the attribute is set");
            failed = !ev_ok[i++];
        }
        __CPROVER_assert(nev == i, "nothing else is called");
        __CPROVER_assert(r == (failed ? -1 : 0), "failure is reported");
        __CPROVER_assert(failed == (pending != NULL), "the error is kept");
        __CPROVER_assert(result.ob_refcnt == RESULT0,
                         "results of methods are released");
    }
    no_leak();
    __CPROVER_assert(name->ob_refcnt == 10 &&
                     (value == NULL || value->ob_refcnt == 10),
                     "references to the arguments");
    END();
}

static long int_of(PyObject *o)
{
    for (int i = 0; i < 4; i++)
        if (i < ints_made && int_obj[i] == o)
            return int_value[i];
    __CPROVER_assert(0, "no integer");
    return -1;
}

void new_(void)
{
    setup();
    int which = nondet_bool();
    PyTypeObject *t = which ? PB : CB;
    PyObject *o = t->tp_new(t, &the_args, NULL);
    if (o == NULL)
        __CPROVER_assert(pending != NULL, "no error is set");
    else {
        __CPROVER_assert(pending == NULL, "an error is pending");
        __CPROVER_assert(o == made && o->ob_refcnt == 1, "the new object");
        if (which) {
            __CPROVER_assert(STATUS(o) == 1, "a new object is unsaved");
            __CPROVER_assert(int_of(AT(o, o_serial)) == 0, "serial 0");
            __CPROVER_assert(AT(o, o_connection) == Py_None &&
                             AT(o, o_oid) == Py_None,
                             "neither connection nor identifier");
        } else
            __CPROVER_assert(int_of(AT(o, o_transaction)) == 1, "serial 1");
    }
    __CPROVER_assert((t->tp_flags & Py_TPFLAGS_BASETYPE) &&
                     IMPLIES(t->tp_traverse, t->tp_flags & Py_TPFLAGS_HAVE_GC)
                     , "flags of the type");
    END();
}

static int fields(PyObject **f, int which)
{
    if (which) {
        f[0] = plain(), f[1] = plain(), f[2] = plain();
        for (int i = 0; i < 3; i++)
            if (nondet_bool())
                f[i] = NULL;
        AT(self_, o_serial) = f[0];
        AT(self_, o_connection) = f[1];
        AT(self_, o_oid) = f[2];
        return 3;
    }
    f[0] = nondet_bool() ? plain() : NULL;
    AT(conn_, o_transaction) = f[0];
    return 1;
}

void dealloc_(void)
{
    PyObject *f[3];
    setup();
    any_object();
    int which = nondet_bool();
    int n = fields(f, which);
    PyObject *o = which ? self_ : conn_;
    o->ob_refcnt = 0;
    o->ob_type->tp_dealloc(o);
    for (int i = 0; i < n; i++)
        __CPROVER_assert(f[i] == NULL || f[i]->ob_refcnt == 9,
                         "each reference is released once");
    __CPROVER_assert(freed == 1 && freed_obj == o && untracked == 1,
                     "the memory is released");
    END();
}

static PyObject *visited[8];
static int nvisited, visit_fails;

static int visit(PyObject *o, void *arg)
{
    __CPROVER_assert(nvisited < 8, "visits");
    __CPROVER_assert(o != NULL, "NULL is visited");
    __CPROVER_assert(arg == &the_dict, "argument of visit");
    visited[nvisited++] = o;
    return nvisited == visit_fails ? 7 : 0;
}

void traverse_(void)
{
    PyObject *f[3];
    setup();
    any_object();
    int which = nondet_bool();
    int n = fields(f, which), there = 0;
    PyObject *o = which ? self_ : conn_;
    visit_fails = nondet_int();
    int r = o->ob_type->tp_traverse(o, visit, &the_dict);
    for (int i = 0; i < n; i++)
        there += f[i] != NULL;
    if (visit_fails >= 1 && visit_fails <= there)
        __CPROVER_assert(r == 7 && nvisited == visit_fails, "stops");
    else {
        __CPROVER_assert(r == 0 && nvisited == there, "all are visited");
        for (int i = 0; i < n; i++) {
            int k = 0;
            for (int j = 0; j < 3; j++)
                k += j < nvisited && visited[j] == f[i];
            __CPROVER_assert(f[i] == NULL || k == 1, "each once");
        }
    }
    for (int i = 0; i < n; i++)
        __CPROVER_assert(f[i] == NULL || f[i]->ob_refcnt == 10, "references");
    END();
}

void clear_(void)
{
    PyObject *f[3];
    setup();
    any_object();
    fields(f, 1);
    PB->tp_clear(self_);
    for (int i = 0; i < 3; i++) {
        PyObject *now = AT(self_, i == 0 ? o_serial : i == 1 ? o_connection
                           : o_oid);
        __CPROVER_assert(now == f[i] || now == NULL, "cleared or not");
        __CPROVER_assert(f[i] == NULL || f[i]->ob_refcnt ==
                         (now == NULL ? 9 : 10), "references");
        if (i == 1)
            __CPROVER_assert(now == NULL, "cycles are broken");
    }
    END();
}

static PyCFunction function(const char *name)
{
    for (PyMethodDef *m = methods; m->ml_name != NULL; m++)
        if (strcmp(m->ml_name, name) == 0) {
            __CPROVER_assert(m->ml_flags == METH_VARARGS,
                             "not modelled: calling convention");
            return m->ml_meth;
        }
    __CPROVER_assert(0, "a function is missing");
    return NULL;
}

static void args(int n)
{
    nargs = nondet_int();
    __CPROVER_assume(nargs >= 0 && nargs <= 3);
    args_[0] = self_;
    args_[1] = plain();
    args_[2] = plain();
    result.ob_refcnt = RESULT0;
}

static int wrong_args(PyObject *r, int n)
{
    if (nargs == n)
        return 0;
    __CPROVER_assert(r == NULL && pending == PyExc_TypeError && nev == 0,
                     "wrong arguments");
    return 1;
}

static void args_kept(void)
{
    for (int i = 0; i < 3; i++)
        __CPROVER_assert(args_[i]->ob_refcnt == 10, "references");
    no_leak();
}

void setattribute_(void)
{
    setup();
    any_object();
    int del = nondet_bool();
    args(0);
    PyObject *r = function(del ? "_delattribute" : "_setattribute")(
        &the_module, &the_args);
    if (!wrong_args(r, del ? 2 : 3)) {
        __CPROVER_assert(nev == 1 && ev[0] == SET && ev_obj[0] == args_[0] &&
                         ev_a[0] == args_[1] &&
                         ev_b[0] == (del ? NULL : args_[2]), "what it does");
        __CPROVER_assert(r == (ev_ok[0] ? Py_None : NULL) &&
                         ev_ok[0] == (pending == NULL), "failure");
    }
    args_kept();
    END();
}

void getattribute_(void)
{
    setup();
    any_object();
    int has = nondet_bool();
    args(0);
    PyObject *r = function(has ? "_hasattribute" : "_getattribute")(
        &the_module, &the_args);
    if (nargs == 2) {
        __CPROVER_assert(nev == 1 && ev[0] == GET && ev_obj[0] == args_[0] &&
                         ev_a[0] == args_[1], "what it does");
        if (has)
            __CPROVER_assert(r == (ev_ok[0] ? Py_True : Py_False) &&
                             pending == NULL, "the answer");
        else
            __CPROVER_assert(r == (ev_ok[0] ? &result : NULL) &&
                             ev_ok[0] == (pending == NULL), "failure");
        __CPROVER_assert(result.ob_refcnt == RESULT0 + (!has && ev_ok[0]),
                         "references to the value");
    } else
        __CPROVER_assert(nev == 0, "wrong arguments");
    args_kept();
    END();
}

void call_if_persistent_(void)
{
    setup();
    any_object();
    in_instance = nondet_int();
    __CPROVER_assume(in_instance >= -1 && in_instance <= 1);
    args(0);
    PyObject *r = function("call_if_persistent")(&the_module, &the_args);
    if (!wrong_args(r, 2)) {
        if (in_instance < 0)
            __CPROVER_assert(r == NULL && pending != NULL && nev == 0,
                             "an error of isinstance()");
        else if (in_instance > 0) {
            __CPROVER_assert(nev == 1 && ev[0] == CALL &&
                             ev_obj[0] == args_[0] && ev_a[0] == args_[1],
                             "it is called");
            __CPROVER_assert(r == (ev_ok[0] ? &result : NULL) &&
                             ev_ok[0] == (pending == NULL), "failure");
        } else
            __CPROVER_assert(nev == 0 && r == Py_None && pending == NULL,
                             "None for anything else");
        __CPROVER_assert(result.ob_refcnt == RESULT0 + (r == &result),
                         "references to the value");
    }
    args_kept();
    END();
}
