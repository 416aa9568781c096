// Written by tools/gen_shapes.py
shapes! {
    Single &A;
    Single &mut A;
    Single &B;
    Single &mut B;
    Single &C;
    Single &mut C;
    Single &Dz;
    Single &mut Dz;
    Single &E;
    Single &mut E;
    Tuple (&A,&B);
    Tuple (&A,&mut B);
    Tuple (&mut A,&B);
    Tuple (&mut A,&mut B);
    Tuple (&A,&C);
    Tuple (&A,&mut C);
    Tuple (&mut A,&C);
    Tuple (&mut A,&mut C);
    Tuple (&B,&A);
    Tuple (&B,&mut A);
    Tuple (&mut B,&A);
    Tuple (&mut B,&mut A);
    Tuple (&B,&C);
    Tuple (&B,&mut C);
    Tuple (&mut B,&C);
    Tuple (&mut B,&mut C);
    Tuple (&C,&A);
    Tuple (&C,&mut A);
    Tuple (&mut C,&A);
    Tuple (&mut C,&mut A);
    Tuple (&C,&B);
    Tuple (&C,&mut B);
    Tuple (&mut C,&B);
    Tuple (&mut C,&mut B);
    Tuple (&A,&mut Dz);
    Tuple (&mut A,&Dz);
    Tuple (&Dz,&mut A);
    Tuple (&mut Dz,&A);
    Tuple (&Dz,&mut E);
    Tuple (&mut Dz,&E);
    Tuple (&E,&mut B);
    Tuple (&mut E,&B);
    Tuple (&C,&mut E);
    Tuple (&mut C,&E);
    Tuple (&E,&mut A);
    Tuple (&mut E,&A);
    Tuple (&A,&B,&C);
    Tuple (&A,&B,&mut C);
    Tuple (&A,&mut B,&C);
    Tuple (&A,&mut B,&mut C);
    Tuple (&mut A,&B,&C);
    Tuple (&mut A,&B,&mut C);
    Tuple (&mut A,&mut B,&C);
    Tuple (&mut A,&mut B,&mut C);
    Tuple (&A,&C,&B);
    Tuple (&A,&mut C,&B);
    Tuple (&B,&A,&C);
    Tuple (&B,&mut A,&C);
    Tuple (&B,&C,&A);
    Tuple (&B,&mut C,&A);
    Tuple (&C,&A,&B);
    Tuple (&C,&mut A,&B);
    Tuple (&C,&B,&A);
    Tuple (&C,&mut B,&A);
    Tuple (&Dz,&mut A,&E);
    Tuple (&mut E,&mut Dz,&mut B);
    Tuple (&A,&B,&C,&Dz);
    Tuple (&B,&C,&Dz,&A);
    Tuple (&C,&Dz,&A,&B);
    Tuple (&Dz,&A,&B,&C);
    Tuple (&mut A,&mut B,&mut C,&mut Dz);
    Tuple (&A,&mut B,&C,&mut Dz);
    Tuple (&mut A,&B,&mut C,&Dz);
    Tuple (&mut A,&B,&C,&Dz);
    Tuple (&A,&mut B,&C,&Dz);
    Tuple (&A,&B,&mut C,&Dz);
    Tuple (&A,&B,&C,&mut Dz);
    Tuple (&A,&B,&C,&Dz,&E);
    Tuple (&B,&C,&Dz,&E,&A);
    Tuple (&C,&Dz,&E,&A,&B);
    Tuple (&Dz,&E,&A,&B,&C);
    Tuple (&E,&A,&B,&C,&Dz);
    Tuple (&mut A,&mut B,&mut C,&mut Dz,&mut E);
    Tuple (&A,&mut B,&C,&mut Dz,&E);
    Tuple (&mut A,&B,&mut C,&Dz,&mut E);
    Tuple (&mut A,&B,&C,&Dz,&E);
    Tuple (&A,&mut B,&C,&Dz,&E);
    Tuple (&A,&B,&mut C,&Dz,&E);
    Tuple (&A,&B,&C,&mut Dz,&E);
    Tuple (&A,&B,&C,&Dz,&mut E);
    Tuple (&E,&Dz,&C,&B);
    Tuple (&mut E,&mut Dz,&mut C,&mut B,&mut A);
    Tuple (&A,(&B,&C));
    Tuple ((&A,&B),&C);
    Tuple (&mut A,(&B,&mut C));
    Tuple ((&A,&mut B),&C);
    Tuple ((&A,&B),(&C,&Dz));
    Tuple ((&mut A,&B),(&mut C,&Dz));
    Tuple (&A,(&B,(&C,&Dz)));
    Tuple (((&A,&B),&C),&Dz);
    Tuple ((&A,&B,&C),&mut Dz);
    Tuple (&mut A,(&B,&C,&Dz));
    Tuple ((&A,&B),&C,(&Dz,&E));
    Tuple (&A,((&B,&mut C),&Dz,&mut E));
    Tuple ((&A,&B,&C,&Dz),&E);
    Tuple (&E,(&Dz,&C,&B,&A));
    Tuple ((&E,&B),&mut A);
    Tuple (&A,&A);
    Tuple (&A,&B,&A);
    Tuple ((&A,&B),(&B,&C));
    Without (&A,Without<&B>);
    Without (Without<&B>,&A);
    Without (&A,Without<&mut B>);
    Without (Without<&mut B>,&A);
    Without (&mut A,Without<&B>);
    Without (Without<&B>,&mut A);
    Without (&mut A,Without<&mut B>);
    Without (Without<&mut B>,&mut A);
    Without (&A,Without<&C>);
    Without (Without<&C>,&A);
    Without (&A,Without<&mut C>);
    Without (Without<&mut C>,&A);
    Without (&mut A,Without<&C>);
    Without (Without<&C>,&mut A);
    Without (&mut A,Without<&mut C>);
    Without (Without<&mut C>,&mut A);
    Without (&B,Without<&A>);
    Without (Without<&A>,&B);
    Without (&B,Without<&mut A>);
    Without (Without<&mut A>,&B);
    Without (&mut B,Without<&A>);
    Without (Without<&A>,&mut B);
    Without (&mut B,Without<&mut A>);
    Without (Without<&mut A>,&mut B);
    Without (&B,Without<&C>);
    Without (Without<&C>,&B);
    Without (&B,Without<&mut C>);
    Without (Without<&mut C>,&B);
    Without (&mut B,Without<&C>);
    Without (Without<&C>,&mut B);
    Without (&mut B,Without<&mut C>);
    Without (Without<&mut C>,&mut B);
    Without (&C,Without<&A>);
    Without (Without<&A>,&C);
    Without (&C,Without<&mut A>);
    Without (Without<&mut A>,&C);
    Without (&mut C,Without<&A>);
    Without (Without<&A>,&mut C);
    Without (&mut C,Without<&mut A>);
    Without (Without<&mut A>,&mut C);
    Without (&C,Without<&B>);
    Without (Without<&B>,&C);
    Without (&C,Without<&mut B>);
    Without (Without<&mut B>,&C);
    Without (&mut C,Without<&B>);
    Without (Without<&B>,&mut C);
    Without (&mut C,Without<&mut B>);
    Without (Without<&mut B>,&mut C);
    Without (&A,Without<&Dz>);
    Without (Without<&A>,&Dz);
    Without (Without<&E>,&mut A);
    Without (&E,Without<&A>);
    Without (&A,Without<(&B,&C)>);
    Without (Without<(&B,&C)>,&A);
    Without (Without<(&B,&mut C)>,&mut A);
    Without (&mut C,Without<(&mut A,&B)>);
    Without (Without<&A>,(&B,&C));
    Without ((&A,&B),Without<&C>);
    Without ((&mut A,&B),Without<&mut C>);
    Without (Without<&mut C>,(&A,&mut B));
    Without (Without<&A>,(&B,Without<&C>));
    Without ((&A,Without<&B>),Without<&C>);
    Without (Without<&C>,(Without<&B>,&A));
    Without (Without<&B>,(&mut A,Without<&C>));
    Without ((Without<&B>,&A),Without<&C>);
    Without (&C,Without<(&A,Without<&B>)>);
    Without (Without<(Without<&A>,&B)>,&C);
    Without (Without<(&A,Without<&B>)>,&C);
    Without (&A,Without<(Without<&B>,&C)>);
    Without (&A,Without<&A>);
    Without (Without<&A>,&A);
    Without ((&A,Without<&B>),&C);
    Without (&C,(&A,Without<&B>));
    Without (&mut C,(Without<&B>,&mut A));
    Without ((Without<&A>,&B),(&C,Without<&Dz>));
    Without (&A,(&B,Without<&C>),&Dz);
    Without ((Without<&A>,&B),&C,&Dz);
    Without (&A,&B,(&C,Without<&Dz>),&E);
    Without (Without<(&A,&B,&C)>,&Dz);
    Without (&Dz,Without<(&A,&B,&C)>);
    Without ((&A,&B,&C),Without<(&Dz,&E)>);
    Group FullOwning<&A,&B>;
    Group FullOwning<&A,&mut B>;
    Group FullOwning<&mut A,&B>;
    Group FullOwning<&mut A,&mut B>;
    Group FullOwning<&A,&C>;
    Group FullOwning<&A,&mut C>;
    Group FullOwning<&mut A,&C>;
    Group FullOwning<&mut A,&mut C>;
    Group FullOwning<&B,&A>;
    Group FullOwning<&B,&mut A>;
    Group FullOwning<&mut B,&A>;
    Group FullOwning<&mut B,&mut A>;
    Group FullOwning<&B,&C>;
    Group FullOwning<&B,&mut C>;
    Group FullOwning<&mut B,&C>;
    Group FullOwning<&mut B,&mut C>;
    Group FullOwning<&C,&A>;
    Group FullOwning<&C,&mut A>;
    Group FullOwning<&mut C,&A>;
    Group FullOwning<&mut C,&mut A>;
    Group FullOwning<&C,&B>;
    Group FullOwning<&C,&mut B>;
    Group FullOwning<&mut C,&B>;
    Group FullOwning<&mut C,&mut B>;
    Group FullOwning<&A,&Dz>;
    Group FullOwning<&mut A,&mut Dz>;
    Group FullOwning<&Dz,&E>;
    Group FullOwning<&mut Dz,&mut E>;
    Group FullOwning<&E,&A>;
    Group FullOwning<&mut E,&mut A>;
    Group PartialOwning<&A,&B>;
    Group PartialOwning<&A,&mut B>;
    Group PartialOwning<&mut A,&B>;
    Group PartialOwning<&mut A,&mut B>;
    Group PartialOwning<&A,&C>;
    Group PartialOwning<&A,&mut C>;
    Group PartialOwning<&mut A,&C>;
    Group PartialOwning<&mut A,&mut C>;
    Group PartialOwning<&B,&A>;
    Group PartialOwning<&B,&mut A>;
    Group PartialOwning<&mut B,&A>;
    Group PartialOwning<&mut B,&mut A>;
    Group PartialOwning<&B,&C>;
    Group PartialOwning<&B,&mut C>;
    Group PartialOwning<&mut B,&C>;
    Group PartialOwning<&mut B,&mut C>;
    Group PartialOwning<&C,&A>;
    Group PartialOwning<&C,&mut A>;
    Group PartialOwning<&mut C,&A>;
    Group PartialOwning<&mut C,&mut A>;
    Group PartialOwning<&C,&B>;
    Group PartialOwning<&C,&mut B>;
    Group PartialOwning<&mut C,&B>;
    Group PartialOwning<&mut C,&mut B>;
    Group PartialOwning<&A,&Dz>;
    Group PartialOwning<&mut A,&mut Dz>;
    Group PartialOwning<&Dz,&E>;
    Group PartialOwning<&mut Dz,&mut E>;
    Group PartialOwning<&E,&A>;
    Group PartialOwning<&mut E,&mut A>;
    Group NonOwning<&A,&B>;
    Group NonOwning<&A,&mut B>;
    Group NonOwning<&mut A,&B>;
    Group NonOwning<&mut A,&mut B>;
    Group NonOwning<&A,&C>;
    Group NonOwning<&A,&mut C>;
    Group NonOwning<&mut A,&C>;
    Group NonOwning<&mut A,&mut C>;
    Group NonOwning<&B,&A>;
    Group NonOwning<&B,&mut A>;
    Group NonOwning<&mut B,&A>;
    Group NonOwning<&mut B,&mut A>;
    Group NonOwning<&B,&C>;
    Group NonOwning<&B,&mut C>;
    Group NonOwning<&mut B,&C>;
    Group NonOwning<&mut B,&mut C>;
    Group NonOwning<&C,&A>;
    Group NonOwning<&C,&mut A>;
    Group NonOwning<&mut C,&A>;
    Group NonOwning<&mut C,&mut A>;
    Group NonOwning<&C,&B>;
    Group NonOwning<&C,&mut B>;
    Group NonOwning<&mut C,&B>;
    Group NonOwning<&mut C,&mut B>;
    Group NonOwning<&A,&Dz>;
    Group NonOwning<&mut A,&mut Dz>;
    Group NonOwning<&Dz,&E>;
    Group NonOwning<&mut Dz,&mut E>;
    Group NonOwning<&E,&A>;
    Group NonOwning<&mut E,&mut A>;
    Group NonOwning<&A,&A>;
    Tuple (FullOwning<&A,&B>,&C);
    Tuple (&C,FullOwning<&A,&B>);
    Tuple (FullOwning<&mut A,&mut B>,&mut C);
    Tuple (&mut C,FullOwning<&mut A,&mut B>);
    Tuple (FullOwning<&A,&B>,&C,&Dz);
    Tuple (&C,FullOwning<&mut A,&B>,&Dz);
    Without (FullOwning<&A,&B>,Without<&C>);
    Without (Without<&C>,FullOwning<&mut A,&mut B>);
    Without (&C,Without<FullOwning<&A,&B>>);
    Without (Without<FullOwning<&A,&B>>,&C);
    Without (Without<FullOwning<&mut A,&mut B>>,&mut C);
    Without (&A,Without<FullOwning<&A,&B>>);
    Without (Without<FullOwning<&A,&B>>,&B);
    Tuple (PartialOwning<&A,&B>,&C);
    Tuple (&C,PartialOwning<&A,&B>);
    Tuple (PartialOwning<&mut A,&mut B>,&mut C);
    Tuple (&mut C,PartialOwning<&mut A,&mut B>);
    Tuple (PartialOwning<&A,&B>,&C,&Dz);
    Tuple (&C,PartialOwning<&mut A,&B>,&Dz);
    Without (PartialOwning<&A,&B>,Without<&C>);
    Without (Without<&C>,PartialOwning<&mut A,&mut B>);
    Without (&C,Without<PartialOwning<&A,&B>>);
    Without (Without<PartialOwning<&A,&B>>,&C);
    Without (Without<PartialOwning<&mut A,&mut B>>,&mut C);
    Without (&A,Without<PartialOwning<&A,&B>>);
    Without (Without<PartialOwning<&A,&B>>,&B);
    Tuple (NonOwning<&A,&B>,&C);
    Tuple (&C,NonOwning<&A,&B>);
    Tuple (NonOwning<&mut A,&mut B>,&mut C);
    Tuple (&mut C,NonOwning<&mut A,&mut B>);
    Tuple (NonOwning<&A,&B>,&C,&Dz);
    Tuple (&C,NonOwning<&mut A,&B>,&Dz);
    Without (NonOwning<&A,&B>,Without<&C>);
    Without (Without<&C>,NonOwning<&mut A,&mut B>);
    Without (&C,Without<NonOwning<&A,&B>>);
    Without (Without<NonOwning<&A,&B>>,&C);
    Without (Without<NonOwning<&mut A,&mut B>>,&mut C);
    Without (&A,Without<NonOwning<&A,&B>>);
    Without (Without<NonOwning<&A,&B>>,&B);
    Tuple (FullOwning<&A,&B>,NonOwning<&B,&C>);
    Tuple (NonOwning<&B,&C>,FullOwning<&A,&B>);
    Tuple (PartialOwning<&A,&B>,PartialOwning<&C,&B>);
    Without (FullOwning<&A,&B>,Without<NonOwning<&B,&C>>);
    Without (Without<PartialOwning<&C,&B>>,PartialOwning<&A,&B>);
    Without (NonOwning<&A,&B>,Without<NonOwning<&B,&C>>);
}
