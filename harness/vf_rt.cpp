// Guest-side runtime: throwing helpers of libstdc++ expressed so that the exception is raised inside the executed program.
#include <stdexcept>
#include <functional>
#include <new>
#include <string>
template class std::basic_string<char>;   // strings are executed by the engine, not by the native library
namespace std {
    void __throw_length_error(const char* s){ throw std::length_error(s); }
    void __throw_logic_error(const char* s){ throw std::logic_error(s); }
    void __throw_out_of_range(const char* s){ throw std::out_of_range(s); }
    void __throw_invalid_argument(const char* s){ throw std::invalid_argument(s); }
    void __throw_out_of_range_fmt(const char* s, ...){ throw std::out_of_range(s); }
    void __throw_bad_alloc(){ throw std::bad_alloc(); }
    void __throw_bad_array_new_length(){ throw std::bad_alloc(); }
    void __throw_runtime_error(const char* s){ throw std::runtime_error(s); }
    void __throw_bad_function_call(){ throw std::bad_function_call(); }
}

// exceptions built from a std::string whose characters may be symbolic: the text is not encoded
#define VF_EXC(mangled,T) extern "C" void _ZNSt##mangled##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(std::T* self, const std::string&){ new(self) std::T("(message not encoded)"); } \
                          extern "C" void _ZNSt##mangled##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(std::T* self, const std::string&){ new(self) std::T("(message not encoded)"); }
VF_EXC(13runtime_error,runtime_error) VF_EXC(11logic_error,logic_error) VF_EXC(16invalid_argument,invalid_argument) VF_EXC(12out_of_range,out_of_range) VF_EXC(12length_error,length_error) VF_EXC(12domain_error,domain_error) VF_EXC(11range_error,range_error)

// threads: a started thread runs as a whole at once or when it is joined (vf_schedule); a second thread may also run at any access to the heap (vf_concurrently)
#define private public
#include <thread>
#undef private
extern "C" { void vf_race(void (*fn)()); int vf_race_end(void); int vf_schedule=0; static int vf_cur=0; int vf_thread(void){ return vf_cur; }
void vf_concurrently(void (*a)(), void (*b)()){ vf_race(b); a(); if (!vf_race_end()) b(); } }
struct VfThread { std::thread::_State* st; bool done; }; static VfThread vf_threads[64]; static int vf_nthreads=0;
static void vf_run(int i){ if (vf_threads[i].done) return; vf_threads[i].done=true; int c=vf_cur; vf_cur=i+1; vf_threads[i].st->_M_run(); vf_cur=c; }
namespace std {
    thread::_State::~_State(){}
    void thread::_M_start_thread(_State_ptr s, void (*)()){ int i=vf_nthreads++; vf_threads[i].st=s.release(); vf_threads[i].done=false; _M_id._M_thread=(native_handle_type)(i+1); if (!((vf_schedule>>i)&1)) vf_run(i); }
    void thread::join(){ int i=(int)_M_id._M_thread-1; if (i<0) __throw_runtime_error("join"); vf_run(i); delete vf_threads[i].st; _M_id=id(); }
    unsigned thread::hardware_concurrency() noexcept { return 3; }
}
