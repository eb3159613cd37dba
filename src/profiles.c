#include <string.h>
#include "mon.h"
/*                         SPAWN SYNC DROP CALL RUN PLAIN NEWF TOG YIELD STEAL SHARE WORK STAT PAUSE */
static const Profile profiles[] = {
 { "forkjoin", {10,6,0,1,0,0,0,0,0,0,0.3,1,0,0.3}, 10,90, 9,0, {2,3,4,2,3,6,8,5},8, 0,0, 1,2, {1,0,0,0,0,0}, 1, 0,20, 1,0,0 },
 { "deep",     {10,3,0,2,0.3,0.5,0,0,0.2,0.5,0.3,1,0,0.5}, 40,160, 40,0, {2,3,4,2,3,5,2,3},8, 0,0, 1,1, {1,0,0,0,0,0}, 1, 0,20, 1,0,0 },
 { "drop",     {10,4,4,1,0.2,0.5,0.3,0.2,0.2,0.4,0.4,1,0.3,0.3}, 10,80, 9,2, {2,3,4,2,3,6,8,1},8, 0,0, 1,2, {1,0,0.1,0.1,0,0}, 1, 0,20, 1,0,0 },
 { "frames",   {8,5,0.5,1,0.2,0.5,1.2,0.8,0.6,0.5,0.3,1,0,0.3}, 10,60, 9,3, {1,2,3,4,2,3,5,4},8, 0,1, 1,2, {1,0,0.4,0.4,0,0}, 1, 1,14, 1,0,0 },
 { "newframe", {8,5,0.3,1,0.2,0.5,1.6,0,0.6,0.5,0.3,1,0,0.3}, 10,60, 9,4, {1,2,3,4,2,3,5,4},8, 0,1, 1,2, {1,0,0.8,0,0,0}, 1, 0,14, 1,0,0 },
 { "together", {8,5,0.3,1,0.2,0.5,0.2,1.4,0.4,0.4,0.3,1,0,0.3}, 8,50, 8,3, {1,2,3,4,2,3,5,6},8, 0,1, 1,2, {1,0,0.1,1,0,0}, 1, 2,14, 1,0,0 },
 { "barrier",  {6,4,0,1,0,0.3,0,1.0,0.2,0.3,0.1,1,0,0.3}, 4,24, 6,2, {1,2,3,4,5,6,8,3},8, 0,0, 1,2, {0.3,0,0,1,0,0}, 1, 9,8, 1,0,0 },
 { "external", {8,5,0.5,1,0.4,0.6,0.1,0.1,0.2,1,0.3,1,0.2,0.4}, 1,25, 7,2, {1,2,3,4,2,3,1,2},8, 1,5, 1,4, {4,0.5,0.15,0.15,0.5,0.5}, 1, 1,12, 1,0,0 },
 { "exclusive",{8,5,0,1,0.4,0.6,0.1,0.1,0.2,1,0.3,1,0,0.4}, 1,20, 6,2, {1,2,3,4,2,3,1,2},8, 1,5, 1,4, {2,2.5,0.1,0.1,0.3,0.3}, 1, 1,12, 1,0,0 },
 { "suspend",  {8,5,0,1,0,0.3,0,0,0,0.3,0.3,1,0,0.4}, 1,14, 6,0, {1,2,3,4,2,3,1,5},8, 0,2, 1,5, {2,0.3,0.1,0.1,3,0.2}, 2, 1,12, 1,0,0 },
 { "lifecycle",{8,5,0.3,1,0.3,0.3,0.2,0.2,0.2,0.3,0.3,1,0,0.4}, 1,14, 6,2, {1,2,3,4,6,8,1,2},8, 0,2, 0,2, {2,0.3,0.2,0.2,0.8,0.2}, 5, 1,12, 1,1,0 },
 { "reentry",  {10,3,0.7,1,1.2,3,0.2,0.1,0.2,0.5,0.3,0.6,0,0.3}, 20,140, 40,2, {1,2,3,4,2,3,2,4},8, 0,1, 1,1, {1,0,0,0,0,0}, 1, 0,22, 1,0,0 },
 { "status",   {10,4,1,1,0.2,0.3,0.1,0.1,0.2,1,2,1,5,1.5}, 10,70, 8,2, {2,3,4,2,3,6,8,5},8, 0,0, 1,2, {1,0,0,0,0,0}, 1, 0,20, 1,0,0 },
 { "all",      {10,5,1,1,0.4,0.8,0.4,0.3,0.3,0.6,0.4,1,0.4,0.4}, 4,60, 9,3, {1,2,3,4,2,3,6,8},8, 0,4, 1,3, {2,0.4,0.3,0.3,0.6,0.2}, 2, 2,16, 1,0,0 },
 { "faults",   {8,5,0.5,1,0.3,0.5,0.6,0.5,0.3,0.5,0.3,1,0,0.4}, 1,25, 7,2, {1,2,3,4,2,3,6,2},8, 0,4, 1,3, {2,0.6,0.4,0.4,1.2,0.2}, 2, 1,14, 1,0,1 },
};
const Profile *find_profile(const char *n);
const Profile *find_profile(const char *n) { for (unsigned i=0;i<sizeof profiles/sizeof *profiles;i++) if(!strcmp(profiles[i].name,n)) return &profiles[i]; return 0; }
