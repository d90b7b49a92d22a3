from seed import *
F='copra/src/phase_driver.c'
PDD='''#!/bin/bash
# runs the phase driver of the tree it runs in on a small phase structure with stand-in actions
set -e
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
gcc -w -O1 -g -fsanitize=address -DNDEBUG -I palm/include -I copra -I cocogen -I cocogen/ccngen "$here/demo.c" copra/src/phase_driver.c palm/src/*.c -o "$t/demo"
cd "$t"
ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo > out 2> err || true
diff "$here/expected.txt" out
'''
HEAD='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ccn/action_types.h"
#include "ccn/dynamic_core.h"
#include "ccn/phase_driver.h"
#include "palm/ctinfo.h"
static struct ccn_action A[40]; static char tree[100]; static int runs[40]; static int fresh; static int failcheck;
static void behave(int a, int run);
static struct ccn_node *doit(int a, struct ccn_node *n) { printf("%s tree %d id %d\\n", A[a].name, (int)((char *)n - tree), (int)CCNgetCurrentActionId()); behave(a, ++runs[a]); return (struct ccn_node *)(tree + ++fresh); }
struct ccn_node *TRAVstart(struct ccn_node *n, enum ccn_traversal_type t) { if (t == TRAV_check) { printf("check tree %d\\n", (int)((char *)n - tree)); if (failcheck) CTI(CTI_ERROR, false, "bad tree"); return n; } if (t == TRAV_free) { printf("free tree %d\\n", (int)((char *)n - tree)); return NULL; } return doit((int)t - 1000, n); }
struct ccn_node *PASSstart(struct ccn_node *n, enum ccn_pass_type t) { return doit((int)t - 1000, n); }
struct ccn_node *CCNfree(struct ccn_node *n) { return TRAVstart(n, TRAV_free); }
struct ccn_action *CCNgetActionFromID(enum ccn_action_id id) { return id == CCN_ROOT_ACTION ? &A[0] : &A[(int)id - 1000]; }
void BreakpointHandler(node_st *n) { printf("breakpoint tree %d\\n", (int)((char *)n - tree)); }
static bool closed(void) { return false; } static bool open_(void) { return true; }
static void ph(int a, char *name, bool cyc, bool (*gate)(void), int n, ...) { va_list v; va_start(v, n); enum ccn_action_id *t = malloc((n + 1) * sizeof *t); for (int i = 0; i < n; i++) t[i] = 1000 + va_arg(v, int); t[n] = CCNAC_ID_NULL; va_end(v); A[a].type = CCN_ACTION_PHASE; A[a].name = name; A[a].phase.is_cycle = cyc; A[a].phase.gate_func = gate; A[a].phase.action_table = t; }
static void ac(int a, char *name, int trav) { A[a].name = name; if (trav) { A[a].type = CCN_ACTION_TRAVERSAL; A[a].traversal.trav_type = 1000 + a; } else { A[a].type = CCN_ACTION_PASS; A[a].pass.pass_type = 1000 + a; } }
static void bye(void) { printf("end\\n"); fflush(stdout); }
'''.replace('#include <string.h>','#include <string.h>\n#include <stdarg.h>')
def mk(behave, setup):
    return HEAD+'static void behave(int a, int run) {\n%s\n}\nint main(void) { setvbuf(stdout, NULL, _IONBF, 0); atexit(bye);\n%s\nCCNrun((struct ccn_node *)tree); printf("done\\n"); return 0; }\n'%(behave,setup)
import subprocess,os
def go(id,prop,edits,needs,breaks,demo):
    # expected output: from the unchanged tree
    open('/tmp/w/demo.c','w').write(demo)
    subprocess.check_call('cd /repo && gcc -w -g -DNDEBUG -I palm/include -I copra -I cocogen -I cocogen/ccngen /tmp/w/demo.c copra/src/phase_driver.c palm/src/*.c -o /tmp/w/demo',shell=True)
    o=subprocess.run('/tmp/w/demo',capture_output=True,text=True).stdout
    print(o)
    seed(id,prop,edits,needs,breaks,PDD,{'demo.c':demo,'expected.txt':o})
go('C04-a','C04',[(F,"""    enum ccn_action_id action_id = phase->action_table[action_counter];
    while (action_id != CCNAC_ID_NULL) {
        phase_driver.action_id++;
        {
            struct ccn_action *action = CCNgetActionFromID(action_id);
            if (action->type == CCN_ACTION_PHASE) {
                SkipPhase(&(action->phase));
            }
        }""","""    enum ccn_action_id action_id = phase->action_table[action_counter];
    while (action_id != CCNAC_ID_NULL) {
        phase_driver.action_id++;
        {
            struct ccn_action *action = CCNgetActionFromID(action_id);
            if (action->type == CCN_ACTION_PHASE && action->phase.gate_func == NULL) {
                SkipPhase(&(action->phase));
            }
        }""")],'a skipped phase that contains a phase with a gate of its own, followed by another action','actions after a skipped phase run under a wrong action number (lifetimes and breakpoints shift)',
 mk('', 'ph(0,"root",false,NULL,3,1,2,7); ac(1,"first",1); ph(2,"skipped",false,closed,2,3,4); ac(3,"s1",0); ph(4,"inner",false,open_,2,5,6); ac(5,"i1",0); ac(6,"i2",0); ac(7,"last",1);'))
go('C04-b','C04',[(F,"""    do {
        // If we cycle around, reset the action id.
        phase_driver.fixed_point = true;
        phase_driver.action_id = curr_action_id;""","""    do {
        // If we cycle around, reset the action id.
        phase_driver.fixed_point = true;
        if (phase_driver.cycle_iter == 1) {
            phase_driver.action_id = curr_action_id;
        }""")],'a cycle that runs at least three rounds','from the third round of a cycle on, actions run under wrong numbers',
 mk('if (a == 2 && run < 4) CCNcycleNotify();','ph(0,"root",false,NULL,2,1,4); ph(1,"cyc",true,NULL,2,2,3); ac(2,"opt",1); ac(3,"opt2",0); ac(4,"last",0);'))
go('C04-c','C04',[(F,"""        node = TRAVstart(node, TRAV_check);
        if""","""        TRAVstart(node, TRAV_check);
        if"""),(F,"""    if (phase_driver.tree_check) {""","""    if (phase_driver.tree_check && !(action->type == CCN_ACTION_PHASE && action->phase.is_cycle)) {""")],'tree checking on and a cycle in the structure','the tree is not checked before a cycle starts',
 mk('','ph(0,"root",false,NULL,2,1,4); ph(1,"cyc",true,NULL,2,2,3); ac(2,"opt",1); ac(3,"opt2",0); ac(4,"last",0);'))
go('C05-a','C05',[(F,"""    phase_driver.fixed_point = fixed_point;
    phase_driver.level--;""","""    phase_driver.fixed_point = cycle ? fixed_point : (fixed_point || phase_driver.fixed_point);
    phase_driver.level--;""")],'a cycle in which an action notifies and a later plain phase of the same round does not','the notification is lost, the cycle stops before the fixed point',
 mk('if (a == 2 && run < 3) CCNcycleNotify();','ph(0,"root",false,NULL,2,1,5); ph(1,"cyc",true,NULL,2,2,3); ac(2,"opt",1); ph(3,"sub",false,NULL,1,4); ac(4,"x",0); ac(5,"last",0);'))
go('C05-b','C05',[(F,"""    } while(cycle && phase_driver.cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));""","""    } while(cycle && (phase_driver.level > 2 || phase_driver.cycle_iter < phase_driver.max_cycles) && (phase_driver.cycle_iter < 5000) && !(phase_driver.fixed_point));""")],'a cycle nested in another phase below the start phase that never reaches its fixed point within the maximum','the configured maximum number of rounds is ignored for nested cycles',
 mk('if (a == 3 && run < 8) CCNcycleNotify();','CCNsetCycles(3); ph(0,"root",false,NULL,2,1,4); ph(1,"sub",false,NULL,1,2); ph(2,"cyc",true,NULL,1,3); ac(3,"opt",1); ac(4,"last",0);'))
go('C05-c','C05',[(F,"""        phase_driver.cycle_iter++;
        fixed_point = fixed_point && phase_driver.fixed_point;""","""        phase_driver.cycle_iter++;
        fixed_point = phase_driver.fixed_point;""")],'a cycle inside a cycle: the inner one notifies in its first round only','the outer cycle is not repeated although an action inside its round signalled',
 mk('if (a == 3 && run < 2) CCNcycleNotify();','ph(0,"root",false,NULL,2,1,5); ph(1,"outer",true,NULL,2,2,4); ph(2,"inner",true,NULL,1,3); ac(3,"opt",1); ac(4,"y",0); ac(5,"last",0);'))
go('C06-a','C06',[(F,"""    case CCN_ACTION_PHASE:
        phase_error = phase_driver.phase_error;
        phase_driver.phase_error = false;""","""    case CCN_ACTION_PHASE:
        phase_error = phase_driver.phase_error;
        phase_driver.phase_error = phase_error && action->phase.is_cycle;""")],'a phase error signalled before a cycle nested in the same phase','compilation stops at the end of the nested cycle, the remaining actions of the phase do not run',
 mk('if (a == 2) CCNerrorPhase();','ph(0,"root",false,NULL,2,1,6); ph(1,"sub",false,NULL,3,2,3,5); ac(2,"bad",1); ph(3,"cyc",true,NULL,1,4); ac(4,"c",0); ac(5,"rest",0); ac(6,"last",0);'))
go('C06-b','C06',[(F,"""    if (phase_driver.breakpoint_id > 0 && phase_driver.breakpoint_id == start_id) {""","""    if (phase_driver.breakpoint_id > 0 && phase_driver.breakpoint_id == phase_driver.action_id) {""")],'a breakpoint by the number of a phase that contains actions','the breakpoint number of a phase does not stop, or stops after another action',
 mk('','CCNsetBreakpointWithID(3); ph(0,"root",false,NULL,3,1,2,5); ac(1,"a",0); ph(2,"sub",false,NULL,2,3,4); ac(3,"b",1); ac(4,"c",0); ac(5,"last",0);'))
go('C06-c','C06',[(F,"""    phase_driver.current_phase = prev;
    if (old_break != NULL) {""","""    phase_driver.current_phase = prev;
    if (old_break != NULL && prev != NULL) {"""),(F,"""        if (tolower(name[i]) != tolower(phase_driver.breakpoint[i])) {""","""        if (tolower(name[i]) != tolower(phase_driver.breakpoint[i]) && phase_driver.level != 1) {""")],'a dotted breakpoint whose second part names another phase than the first phase with a name of the same length','stops inside the wrong phase',
 mk('','CCNsetBreakpoint("root.sub2.b"); ph(0,"root",false,NULL,2,1,3); ph(1,"sub1",false,NULL,1,2); ac(2,"b",1); ph(3,"sub2",false,NULL,2,4,5); ac(4,"b",0); ac(5,"c",0);'))
