raise AssertionError('the app which is installed is outer.inner')
