// hooks
