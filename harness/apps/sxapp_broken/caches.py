import no_such_module_of_the_project
