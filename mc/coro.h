// coro.h - cooperative tasks: the explorer decides at every yield which task goes on.
#pragma once
#include <ucontext.h>
#include <functional>
#include <string>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define MC_LEAVE( fake, bottom, size ) __sanitizer_start_switch_fiber( fake, bottom, size )
#define MC_ENTER( fake, bottom, size ) __sanitizer_finish_switch_fiber( fake, bottom, size )
#else
#define MC_LEAVE( fake, bottom, size ) (void)(fake)
#define MC_ENTER( fake, bottom, size ) (void)(fake)
#endif
namespace mc {
class Task
    {
    public:
        explicit Task( std::function<void()> body, size_t stackSize = 1<<19 ) : m_body( body ), m_stack( stackSize ) {}
        bool done() const { return m_done; }
        const std::string& error() const { return m_error; }
        unsigned yields() const { return m_yields; }
        // Lets the task run until its next yield or its end
        void resume() {
            if( !m_started ) { m_started = true; getcontext( &m_ctx ); m_ctx.uc_stack.ss_sp = m_stack.data(); m_ctx.uc_stack.ss_size = m_stack.size(); m_ctx.uc_link = nullptr; makecontext( &m_ctx, &Task::entry, 0 ); }
            auto prev = running(); running() = this; void *fake = nullptr; MC_LEAVE( &fake, m_stack.data(), m_stack.size() ); swapcontext( &m_back, &m_ctx ); MC_ENTER( fake, nullptr, nullptr ); running() = prev;
            }
        // Called by whatever runs inside a task; does nothing outside of tasks
        static void yield() { if( auto t = running() ) { ++t->m_yields; void *fake = nullptr; MC_LEAVE( &fake, t->m_bottom, t->m_size ); swapcontext( &t->m_ctx, &t->m_back ); MC_ENTER( fake, &t->m_bottom, &t->m_size ); } }
        static Task*& running() { static Task *t = nullptr; return t; }
    private:
        std::function<void()> m_body; std::vector<char> m_stack; ucontext_t m_ctx, m_back; bool m_started = false, m_done = false; std::string m_error; unsigned m_yields = 0; const void *m_bottom = nullptr; size_t m_size = 0;      // of the stack of the explorer
        static void entry() {
            Task *t = running(); MC_ENTER( nullptr, &t->m_bottom, &t->m_size );
            try { t->m_body(); } catch( const std::exception& e ) { t->m_error = e.what(); if( t->m_error.empty() ) t->m_error = "exception"; } catch( ... ) { t->m_error = "exception"; }
            t->m_done = true; MC_LEAVE( nullptr, t->m_bottom, t->m_size ); swapcontext( &t->m_ctx, &t->m_back );
            }
    };
}
