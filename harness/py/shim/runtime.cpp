#include "pybind11/pybind11.h"
#include <structmember.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
#include <cxxabi.h>
#include <cstring>

namespace pybind11 {

struct fetched { PyObject* e; };

error_already_set::error_already_set() : std::runtime_error([] {
    auto text = std::string("Python error");
    PyObject *t, *v, *tb;
    PyErr_Fetch(&t, &v, &tb);
    PyErr_NormalizeException(&t, &v, &tb);
    if (v) { if (tb) { PyException_SetTraceback(v, tb); } }
    if (auto const s = v ? PyObject_Str(v) : nullptr) {
        if (auto const c = PyUnicode_AsUTF8(s)) { text = std::string(Py_TYPE(v)->tp_name) + ": " + c; }
        Py_DECREF(s);
    }
    PyErr_Clear();
    PyErr_Restore(t, v, tb);
    return text;
}()) {
    PyObject *t, *v, *tb;
    PyErr_Fetch(&t, &v, &tb);
    PyErr_NormalizeException(&t, &v, &tb);
    if (v && tb) { PyException_SetTraceback(v, tb); }
    Py_XDECREF(t);
    Py_XDECREF(tb);
    error = std::shared_ptr<PyObject>(v, [](PyObject* p) { if (p && Py_IsInitialized()) { gil_scoped_acquire g; Py_DECREF(p); } });
}

void error_already_set::restore() const {
    if (!error) { PyErr_SetString(PyExc_RuntimeError, what()); return; }
    PyErr_SetObject((PyObject*)Py_TYPE(error.get()), error.get());
}

namespace detail {

// numpy ---------------------------------------------------------------------------------------

int typenum(std::type_info const& t) {
    static std::map<std::type_index, int> const m = {
        {typeid(float), NPY_FLOAT}, {typeid(double), NPY_DOUBLE}, {typeid(std::complex<float>), NPY_CFLOAT}, {typeid(std::complex<double>), NPY_CDOUBLE},
        {typeid(bool), NPY_BOOL}, {typeid(std::int8_t), NPY_INT8}, {typeid(std::int16_t), NPY_INT16}, {typeid(std::int32_t), NPY_INT32}, {typeid(std::int64_t), NPY_INT64},
        {typeid(std::uint8_t), NPY_UINT8}, {typeid(std::uint16_t), NPY_UINT16}, {typeid(std::uint32_t), NPY_UINT32}, {typeid(std::uint64_t), NPY_UINT64},
    };
    auto const it = m.find(t);
    if (it == m.end()) { throw std::runtime_error("no numpy type for " + std::string(t.name())); }
    return it->second;
}
static PyArrayObject* A(handle h) { return (PyArrayObject*)h.ptr(); }
PyObject* descr_of(int type) { return (PyObject*)PyArray_DescrFromType(type); }
PyTypeObject* array_type() { return &PyArray_Type; }
PyObject* new_from_descr(PyTypeObject* type, PyObject* descr, int ndim, Py_intptr_t* shape, Py_intptr_t* strides, void* data, int flags, PyObject* obj) {
    return PyArray_NewFromDescr(type, (PyArray_Descr*)descr, ndim, shape, strides, data, flags, obj);
}
object make_array(int type, int ndim, Py_intptr_t const* shape, Py_intptr_t const* strides, void* data, int flags) {
    static char nothing[16];
    return steal(PyArray_NewFromDescr(&PyArray_Type, PyArray_DescrFromType(type), ndim, const_cast<Py_intptr_t*>(shape), const_cast<Py_intptr_t*>(strides), data ? data : nothing, flags, nullptr));
}
object copy_of_array(int type, int ndim, Py_intptr_t const* shape, Py_intptr_t const* strides, void const* data) {
    auto v = make_array(type, ndim, shape, strides, const_cast<void*>(data), npy_api::NPY_ARRAY_ALIGNED_);
    return steal(PyArray_NewCopy(A(v), NPY_ANYORDER));
}
object any_array(handle src, int type) {
    if (!src) { return {}; }
    auto const flags = NPY_ARRAY_ENSUREARRAY | (type >= 0 ? NPY_ARRAY_FORCECAST : 0);
    auto const p = PyArray_FromAny(src.ptr(), type >= 0 ? PyArray_DescrFromType(type) : nullptr, 0, 0, flags, nullptr);
    if (!p) { PyErr_Clear(); }
    return object(p, object::stolen{});
}
bool is_array(handle h, int type) {
    if (!h || !PyArray_Check(h.ptr())) { return false; }
    if (type < 0) { return true; }
    auto const d = object(descr_of(type), object::stolen{});
    return PyArray_EquivTypes(PyArray_DESCR(A(h)), (PyArray_Descr*)d.ptr());
}
int array_ndim(handle a) { return PyArray_NDIM(A(a)); }
Py_intptr_t const* array_shape(handle a) { return PyArray_DIMS(A(a)); }
Py_intptr_t const* array_strides(handle a) { return PyArray_STRIDES(A(a)); }
void* array_data(handle a) { return PyArray_DATA(A(a)); }
bool copy_into(handle dst, handle src) { return PyArray_CopyInto(A(dst), A(src)) == 0; }
object squeezed(handle a) { return steal(PyArray_Squeeze(A(a))); }
void set_base(handle array, handle base, bool writeable) {
    if (base) {
        base.inc_ref();
        PyArray_SetBaseObject(A(array), base.ptr());
    }
    if (!writeable) { PyArray_CLEARFLAGS(A(array), NPY_ARRAY_WRITEABLE); }
}

// classes -------------------------------------------------------------------------------------

namespace {
struct internals {
    std::map<std::type_index, type_record*> by_cpp;
    std::map<PyTypeObject*, type_record*> by_type;
    std::multimap<void*, instance*> instances;
    std::map<PyObject*, std::vector<PyObject*>> patients;
};
internals& in() { static auto& i = *new internals(); return i; }

void forget(instance* self) {
    if (self->value) {
        auto const range = in().instances.equal_range(self->value);
        for (auto it = range.first; it != range.second; ++it) { if (it->second == self) { in().instances.erase(it); break; } }
    }
    delete self->holder;
    self->holder = nullptr;
    self->value = nullptr;
}

PyObject* new_instance(PyTypeObject* type, PyObject*, PyObject*) {
    auto const self = (instance*)type->tp_alloc(type, 0);
    if (self) { self->value = nullptr; self->holder = nullptr; self->record = nullptr; self->weakrefs = nullptr; self->has_patients = false; }
    return (PyObject*)self;
}

int no_constructor(PyObject* self, PyObject*, PyObject*) {
    PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name);
    return -1;
}

void dealloc(PyObject* o) {
    auto const type = Py_TYPE(o);
    if (PyType_IS_GC(type)) { PyObject_GC_UnTrack(o); }
    auto const self = (instance*)o;
    if (self->weakrefs) { PyObject_ClearWeakRefs(o); }
    PyObject *t, *v, *tb;
    PyErr_Fetch(&t, &v, &tb);
    forget(self);
    if (self->has_patients) {
        auto it = in().patients.find(o);
        if (it != in().patients.end()) {
            auto const list = std::move(it->second);
            in().patients.erase(it);
            for (auto p : list) { Py_DECREF(p); }
        }
    }
    PyErr_Restore(t, v, tb);
    type->tp_free(o);
    Py_DECREF(type);
}

PyMemberDef members[] = {{"__weaklistoffset__", T_PYSSIZET, offsetof(instance, weakrefs), READONLY, nullptr}, {nullptr, 0, 0, 0, nullptr}};
} // namespace

std::string class_name(std::type_info const& t) {
    auto status = 0;
    auto const c = abi::__cxa_demangle(t.name(), nullptr, nullptr, &status);
    auto s = std::string(c ? c : t.name());
    std::free(c);
    return s;
}

type_record const* find_type(std::type_info const& t) {
    auto const it = in().by_cpp.find(t);
    return it == in().by_cpp.end() ? nullptr : it->second;
}

type_record const* find_type(PyTypeObject* t) {
    if (!t->tp_mro) { return nullptr; }
    for (auto i = Py_ssize_t{0}; i < PyTuple_GET_SIZE(t->tp_mro); ++i) {
        auto const it = in().by_type.find((PyTypeObject*)PyTuple_GET_ITEM(t->tp_mro, i));
        if (it != in().by_type.end()) { return it->second; }
    }
    return nullptr;
}

type_record* new_type(handle scope, char const* name, std::type_info const& t, std::type_info const* base, void* (*to_base)(void*)) {
    auto const module_name = steal(PyObject_GetAttrString(scope.ptr(), "__name__")).cast<std::string>();
    auto const full = new std::string(module_name + "." + name);
    auto const r = new type_record();
    r->cpp = &t;
    r->base = base ? find_type(*base) : nullptr;
    if (base && !r->base) { throw std::runtime_error("unknown base of " + *full); }
    r->to_base = to_base;
    PyType_Slot slots[] = {{Py_tp_new, (void*)new_instance}, {Py_tp_init, (void*)no_constructor}, {Py_tp_dealloc, (void*)dealloc}, {Py_tp_members, members}, {0, nullptr}};
    PyType_Spec spec = {full->c_str(), (int)sizeof(instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    auto const bases = r->base ? steal(PyTuple_Pack(1, r->base->type)) : object();
    auto type = steal(PyType_FromSpecWithBases(&spec, bases.ptr()));
    r->type = (PyTypeObject*)type.ptr();
    Py_INCREF(r->type);
    in().by_cpp[t] = r;
    in().by_type[r->type] = r;
    PyObject_SetAttrString(scope.ptr(), name, type.ptr());
    return r;
}

object wrap(void* value, std::shared_ptr<void> holder, type_record const* record) {
    auto o = steal(new_instance(record->type, nullptr, nullptr));
    auto const self = (instance*)o.ptr();
    self->value = value;
    self->record = record;
    if (holder) { self->holder = new std::shared_ptr<void>(std::move(holder)); }
    in().instances.emplace(value, self);
    return o;
}

object existing(void* value, std::type_info const& t) {
    auto const range = in().instances.equal_range(value);
    for (auto it = range.first; it != range.second; ++it) {
        if (*it->second->record->cpp == t) { return borrow((PyObject*)it->second); }
    }
    return {};
}

void* unwrap(handle src, std::type_info const& t) {
    if (!src || !find_type(Py_TYPE(src.ptr()))) { return nullptr; }
    auto const self = (instance*)src.ptr();
    if (!self->value) {
        for (auto r = find_type(Py_TYPE(src.ptr())); r; r = r->base) {
            if (*r->cpp == t) { throw type_error("__init__() of " + class_name(t) + " was not called"); }
        }
        return nullptr;
    }
    auto p = self->value;
    for (auto r = self->record; r; r = r->base) {
        if (*r->cpp == t) { return p; }
        if (r->base) { p = r->to_base(p); }
    }
    return nullptr;
}

std::shared_ptr<void> holder_of(handle src) {
    auto const self = (instance*)src.ptr();
    return self->holder ? *self->holder : nullptr;
}

void set_value(handle h, void* value, std::shared_ptr<void> holder, std::type_info const& t) {
    auto const record = find_type(t);
    auto ok = false;
    for (auto r = find_type(Py_TYPE(h.ptr())); r; r = r->base) { ok = ok || r == record; }
    if (!ok) { throw type_error("__init__() of another class"); }
    auto const self = (instance*)h.ptr();
    forget(self);
    self->value = value;
    self->record = record;
    self->holder = new std::shared_ptr<void>(std::move(holder));
    in().instances.emplace(value, self);
}

void keep_alive_impl(handle nurse, handle patient) {
    if (!nurse || !patient || patient.is_none() || nurse.is_none()) { return; }
    if (find_type(Py_TYPE(nurse.ptr()))) {
        patient.inc_ref();
        ((instance*)nurse.ptr())->has_patients = true;
        in().patients[nurse.ptr()].push_back(patient.ptr());
        return;
    }
    static PyMethodDef release = {"release", [](PyObject* p, PyObject* weak) -> PyObject* {
        Py_DECREF(p);
        Py_DECREF(weak);
        Py_RETURN_NONE;
    }, METH_O, nullptr};
    // the function owns one reference to the patient and drops a second one when it is called
    patient.inc_ref();
    auto callback = steal(PyCFunction_New(&release, patient.ptr()));
    steal(PyWeakref_NewRef(nurse.ptr(), callback.ptr())).release();
}

// functions -----------------------------------------------------------------------------------

namespace {
struct function_record {
    std::string name;
    std::vector<std::shared_ptr<overload>> overloads;
    PyMethodDef def;
    std::string doc;
};

char const capsule_name[] = "mini_pybind11_function";

bool arrange(overload const& o, PyObject* args, PyObject* kwargs, std::vector<handle>& out) {
    auto const given = (std::size_t)PyTuple_GET_SIZE(args);
    if (given > o.nargs) { return false; }
    out.clear();
    for (auto i = std::size_t{0}; i < given; ++i) { out.push_back(PyTuple_GET_ITEM(args, (Py_ssize_t)i)); }
    auto const offset = o.nargs - o.args.size(); // self has no name
    auto used = Py_ssize_t{0};
    for (auto i = std::size_t{0}; i < given; ++i) {
        if (kwargs && !o.args.empty() && i >= offset && PyDict_GetItemString(kwargs, o.args[i - offset].name)) { return false; }
    }
    for (auto i = given; i < o.nargs; ++i) {
        if (o.args.empty() || i < offset) { return false; }
        auto const& a = o.args[i - offset];
        auto const k = kwargs ? PyDict_GetItemString(kwargs, a.name) : nullptr;
        if (k) { out.push_back(k); ++used; }
        else if (a.value) { out.push_back(a.value); }
        else { return false; }
    }
    return !kwargs || used == PyDict_Size(kwargs);
}

void translate() {
    try { throw; }
    catch (error_already_set const& e) { e.restore(); }
    catch (index_error const& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (value_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (type_error const& e) { PyErr_SetString(PyExc_TypeError, e.what()); }
    catch (std::bad_alloc const& e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
    catch (std::domain_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::invalid_argument const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::length_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::out_of_range const& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (std::range_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (std::exception const& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
    catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
}

PyObject* dispatch(PyObject* self, PyObject* args, PyObject* kwargs) {
    auto const f = (function_record*)PyCapsule_GetPointer(self, capsule_name);
    auto const n = PyTuple_GET_SIZE(args);
    try {
        auto const overloaded = f->overloads.size() > 1;
        auto const is_init = f->name == "__init__" || f->name == "__setstate__";
        auto values = std::vector<handle>();
        for (auto pass = overloaded ? 0 : 1; pass < 2; ++pass) {
            for (auto const& o : f->overloads) {
                if (!arrange(*o, args, kwargs, values)) { continue; }
                auto const parent = o->is_method && n > 0 ? handle(PyTuple_GET_ITEM(args, 0)) : handle();
                auto const r = o->impl(values, pass == 1, parent);
                if (r) { return r.ptr(); }
                if (PyErr_Occurred()) { return nullptr; }
            }
        }
        (void)is_init;
        auto text = f->name + "(): incompatible function arguments. Invoked with: ";
        for (auto i = Py_ssize_t{0}; i < n; ++i) {
            if (auto const s = PyObject_Repr(PyTuple_GET_ITEM(args, i))) {
                if (auto const c = PyUnicode_AsUTF8(s)) { text += (i ? ", " : "") + std::string(c); }
                Py_DECREF(s);
            }
            PyErr_Clear();
        }
        PyErr_SetString(PyExc_TypeError, text.c_str());
    } catch (...) {
        translate();
    }
    return nullptr;
}

function_record* record_of(handle f) {
    auto p = f.ptr();
    if (p && PyInstanceMethod_Check(p)) { p = PyInstanceMethod_GET_FUNCTION(p); }
    if (!p || !PyCFunction_Check(p)) { return nullptr; }
    auto const self = PyCFunction_GET_SELF(p);
    if (!self || !PyCapsule_CheckExact(self) || !PyCapsule_IsValid(self, capsule_name)) { return nullptr; }
    return (function_record*)PyCapsule_GetPointer(self, capsule_name);
}
} // namespace

object make_function(char const* name, std::shared_ptr<overload> o, bool is_method) {
    auto const f = new function_record();
    f->name = name;
    f->doc = o->doc;
    f->overloads.push_back(std::move(o));
    f->def = {f->name.c_str(), (PyCFunction)(void (*)())dispatch, METH_VARARGS | METH_KEYWORDS, f->doc.c_str()};
    auto capsule = steal(PyCapsule_New(f, capsule_name, nullptr)); // functions live as long as the module
    auto func = steal(PyCFunction_NewEx(&f->def, capsule.ptr(), nullptr));
    return is_method ? steal(PyInstanceMethod_New(func.ptr())) : func;
}

void add_function(handle scope, char const* name, std::shared_ptr<overload> o, bool is_method) {
    auto own = handle();
    if (PyType_Check(scope.ptr())) {
        auto const d = steal(PyObject_GetAttrString(scope.ptr(), "__dict__"));
        auto const key = steal(PyUnicode_FromString(name));
        auto const v = PyObject_GetItem(d.ptr(), key.ptr());
        PyErr_Clear();
        own = v;
        Py_XDECREF(v); // stays in the dict
    } else if (PyObject_HasAttrString(scope.ptr(), name)) {
        own = PyObject_GetAttrString(scope.ptr(), name);
        own.dec_ref();
    }
    if (auto const r = record_of(own)) {
        r->overloads.push_back(std::move(o));
        return;
    }
    auto f = make_function(name, std::move(o), is_method);
    if (PyObject_SetAttrString(scope.ptr(), name, f.ptr()) != 0) { throw error_already_set(); }
}

void add_property(handle scope, char const* name, object getter, object setter, char const* doc) {
    auto none_ = none();
    auto p = handle((PyObject*)&PyProperty_Type)(getter, setter ? setter : none_, none_, doc);
    if (PyObject_SetAttrString(scope.ptr(), name, p.ptr()) != 0) { throw error_already_set(); }
}

object call(handle f, std::vector<object> const& args, dict const& kwargs) {
    auto t = tuple(args.size());
    for (std::size_t i = 0; i < args.size(); ++i) {
        args[i].inc_ref();
        PyTuple_SET_ITEM(t.ptr(), (Py_ssize_t)i, args[i].ptr());
    }
    return steal(PyObject_Call(f.ptr(), t.ptr(), PyDict_Size(kwargs.ptr()) ? kwargs.ptr() : nullptr));
}

static int load_numpy() { return _import_array(); }

PyObject* init_module(char const* name, void (*f)(module&)) {
    if (load_numpy() < 0) { return nullptr; }
    static PyModuleDef def;
    def = {PyModuleDef_HEAD_INIT, name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr};
    auto m = module(handle(PyModule_Create(&def)), object::stolen{});
    if (!m) { return nullptr; }
    try { f(m); } catch (...) { translate(); return nullptr; }
    return m.release().ptr();
}

} // namespace detail

module module::def_submodule(char const* name) {
    auto const full = steal(PyObject_GetAttrString(m_ptr, "__name__")).cast<std::string>() + "." + name;
    auto m = borrow(PyImport_AddModule(full.c_str()));
    PyObject_SetAttrString(m_ptr, name, m.ptr());
    return module(m.release(), stolen{});
}

} // namespace pybind11
