use crate::{core::Tag, mailbox::Mailbox};

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum State<'a> {
    Greeting,
    NotAuthenticated,
    Authenticated,
    Selected(Mailbox<'a>),
    Logout,
    IdleAuthenticated(Tag<'a>),
    IdleSelected(Tag<'a>, Mailbox<'a>),
}
