// std::thread and the clocks on top of vf_thread_* (shared by the symbolic run and the native replay).
namespace {
void vfThreadTramp(void* p) { std::thread::_State_ptr s(static_cast<std::thread::_State*>(p)); s->_M_run(); }
}
