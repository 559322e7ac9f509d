/* Shared by the models of the event loop and of channels */
#ifndef VF_LOOP_H
#define VF_LOOP_H
GIOCondition vf_channel_condition(GIOChannel* ch);
GIOCondition vf_fd_condition(int fd);
#endif
